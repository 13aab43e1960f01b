// Edge objects: what a program may legally do with empty or default constructed
// objects, impossible decompositions and short command lines. Run under sanitizers
// and memcheck; everything obtained is printed.
#include "CmdLineArgParser.h"
#include "CubeDecomp.h"
#include "MultiArrayIter.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
typedef std::vector<size_t> V;

static void show(const V& v) {
  for (size_t x : v) printf(" %zu", x);
  printf("\n");
}
static void parse(CmdLineArgParser& p, std::vector<std::string> a) {
  std::vector<std::vector<char>> st;
  std::vector<char*> av;
  a.insert(a.begin(), "prog");
  for (auto& s : a) {
    st.emplace_back(s.begin(), s.end());
    st.back().push_back(0);
    st.back().shrink_to_fit();
  }
  for (auto& x : st) av.push_back(x.data());
  av.push_back(nullptr);
  bool ok = p.parse((int) a.size(), av.data());
  printf("parse %d %g %d %s %d %d\n", (int) ok, p.get<double>("-d"), p.get<int>("-i"), p.get<std::string>("-s").c_str(), (int) p.get<bool>("-b"), (int) p.get<bool>("-h"));
  p.help();
}

int main() {
  {
    MultiArrayIter it;
    printf("default %zu\n", it.getNumberOfTerms());
    for (size_t i = 0; i < it.getNumberOfTerms(); ++i) {
      show(it.getIndices());
      it.next();
    }
    it.begin();
    show(it.getLBegIndices());
    show(it.getEndIndices());
    MultiArrayIter c(it), d;
    d = it;
    printf("copies %zu %zu\n", c.getNumberOfTerms(), d.getNumberOfTerms());
    d.build(V{1, 2}, V{3, 5}, true);
    for (size_t i = 0; i < d.getNumberOfTerms(); ++i) {
      show(d.getIndices());
      d.next();
    }
    MultiArrayIter e(V{4, 0}, V{4, 3}, false);
    printf("empty box %zu\n", e.getNumberOfTerms());
  }
  {
    CubeDecomp c;
    show(c.getDecomp());
    printf("build %d\n", (int) c.build(7, V{4, 4}));
    show(c.getDecomp());
    printf("build %d\n", (int) c.build(4, V{4, 4}));
    for (int r = 0; r < 4; ++r) {
      show(c.getBegIndices(r));
      show(c.getEndIndices(r));
      printf("%d\n", c.getNeighborRank(r, std::vector<int>{-1, 1}));
    }
    CubeDecomp d(c);
    show(d.getEndIndices(3));
    printf("build %d\n", (int) c.build(5, V{4, 4}));
    show(c.getDecomp());
    CubeDecomp e(3, V{1, 1, 1}), f(1, V{1}), g(6, V{2, 3}), h(8, V{9, 7, 5});
    show(e.getDecomp());
    show(f.getDecomp());
    show(g.getDecomp());
    show(h.getDecomp());
    show(f.getBegIndices(0));
    printf("%d\n", f.getNeighborRank(0, std::vector<int>{-1}));
    for (int n = 1; n < 60; ++n) {
      CubeDecomp k;
      bool ok = k.build(n, V{12, 1, 10});
      printf("%d %d", n, (int) ok);
      if (ok) show(k.getEndIndices(n - 1)); else printf("\n");
    }
  }
  {
    std::vector<std::vector<std::string>> lines = {
      {}, {""}, {"", ""}, {"-"}, {"-d"}, {"-i"}, {"-s"}, {"-b"}, {"-h"}, {"-d", ""}, {"-i", ""}, {"-s", ""}, {"-s", "-"}, {"-"}, {"-", "-b"}, {"-d", "-5"}, {"-x"}, {"--"}, {"-d", "x"},
      {"-i", "zzz"}, {"-s", std::string(5000, 'q')}, {std::string(5000, '-')}, {"-b", "-b", "-b"}, {"foo", "bar"}, {"-5"}, {"-\xc3\xa9"}, {"\xff"}, {"-i", "2147483647"}, {"-d", "1e400"}, {"-d", "1e-400"}};
    for (auto& l : lines) {
      CmdLineArgParser p;
      p.set("-d", 1.5, "a double");
      p.set("-i", 3, "an int");
      p.set("-s", std::string("text"), "a string");
      p.set("-b", true, "a flag");
      parse(p, l);
    }
    CmdLineArgParser p, q;
    p.help();
    q.setPurpose("");
    q.addFootnote("");
    parse(q, {"-h"});
    printf("%g %d [%s] %d\n", q.get<double>("-none"), q.get<int>("-none"), q.get<std::string>("-none").c_str(), (int) q.get<bool>("-none"));
  }
  return 0;
}
