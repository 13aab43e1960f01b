// Drives CmdLineArgParser. Strings are hex encoded ("." is empty). Per case:
//   case <i> | d|i|s|b <name> <default> <help> | purpose <t> | note <t>
//   help | parse <argc> <argv...> | get d|i|s|b <name>
// Replies on the file given as second argument; whatever the parser prints is
// captured and reported, hex encoded, with the command.
#include "CmdLineArgParser.h"
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

static std::string unhex(const std::string& h) {
  std::string r;
  if (h == ".") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) std::stoi(h.substr(i, 2), nullptr, 16);
  return r;
}
static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r.empty() ? "." : r;
}
static int cap;
static void startCapture() { if (ftruncate(cap, 0)) {} lseek(cap, 0, SEEK_SET); }
static std::string captured() {
  std::cout.flush();
  std::cerr.flush();
  fflush(stdout);
  fflush(stderr);
  std::string r;
  char b[4096];
  lseek(cap, 0, SEEK_SET);
  ssize_t k;
  while ((k = read(cap, b, sizeof b)) > 0) r.append(b, k);
  return r;
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  cap = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0600);
  int err = dup(2);
  dup2(cap, 1);
  (void) err;
  std::unique_ptr<CmdLineArgParser> p;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string op, a, b, c;
    if (!(s >> op)) continue;
    if (op == "case") {
      s >> a;
      p.reset(new CmdLineArgParser());
      fprintf(out, "case %s\n", a.c_str());
      fflush(out);
    } else if (op == "d" || op == "i" || op == "s" || op == "b") {
      s >> a >> b >> c;
      a = unhex(a);
      b = unhex(b);
      c = unhex(c);
      if (op == "d") p->set(a, strtod(b.c_str(), nullptr), c);
      if (op == "i") p->set(a, (int) strtol(b.c_str(), nullptr, 10), c);
      if (op == "s") p->set(a, b, c);
      if (op == "b") p->set(a, b == "1", c);
    } else if (op == "purpose") {
      s >> a;
      p->setPurpose(unhex(a));
    } else if (op == "note") {
      s >> a;
      p->addFootnote(unhex(a));
    } else if (op == "help") {
      int e = dup(2);
      dup2(cap, 2);
      startCapture();
      p->help();
      fprintf(out, "help %s\n", hex(captured()).c_str());
      dup2(e, 2);
      close(e);
    } else if (op == "parse") {
      int n;
      s >> n;
      std::vector<std::vector<char>> st;
      std::vector<char*> av;
      for (int k = 0; k < n; ++k) {
        s >> a;
        a = unhex(a);
        st.emplace_back(a.begin(), a.end());
        st.back().push_back(0);
      }
      for (auto& x : st) av.push_back(x.data());
      av.push_back(nullptr);
      int e = dup(2);
      dup2(cap, 2);
      startCapture();
      bool ok = p->parse(n, av.data());
      fprintf(out, "parse %d %s\n", ok ? 1 : 0, hex(captured()).c_str());
      dup2(e, 2);
      close(e);
    } else if (op == "get") {
      s >> a >> b;
      b = unhex(b);
      if (a == "d") fprintf(out, "get %a\n", p->get<double>(b));
      if (a == "i") fprintf(out, "get %d\n", p->get<int>(b));
      if (a == "s") fprintf(out, "get %s\n", hex(p->get<std::string>(b)).c_str());
      if (a == "b") fprintf(out, "get %d\n", p->get<bool>(b) ? 1 : 0);
    }
  }
  fclose(out);
  return 0;
}
