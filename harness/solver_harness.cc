// Drives an Upwind solver class (SOLVER_FILE, dimensions up to NDMAX from NDMIN).
// argv: case file. Results go to $VF_OUT/f.0.bin, progress to f.0.prog
#define main solver_main_unused
#include SOLVER_FILE
#undef main
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <type_traits>
#ifdef HAVE_OPENMP
#include <omp.h>
#endif

static FILE* vf_out;
static FILE* vf_prog;
static std::string vf_dir;
static void rec(const char* tag, const std::vector<double>& v, double aux = 0) {
  char t[8] = {0};
  strncpy(t, tag, 8);
  int64_t n = (int64_t) v.size();
  fwrite(t, 1, 8, vf_out);
  fwrite(&aux, 8, 1, vf_out);
  fwrite(&n, 8, 1, vf_out);
  if (n) fwrite(v.data(), 8, v.size(), vf_out);
}
// number of cells: whatever integer vector the class takes
struct Dims {
  std::vector<long> d;
  template <class T> operator std::vector<T>() const { return std::vector<T>(d.begin(), d.end()); }
};
template <class U> auto adv(U& u, long n, double dt, int) -> decltype(u.advect((int) n, dt), void()) { u.advect((int) n, dt); }
template <class U> auto adv(U& u, long n, double dt, long) -> decltype(u.advect(dt), void()) { for (long i = 0; i < n; ++i) u.advect(dt); }
template <class U> auto dev(const U& u, int) -> decltype(u.std(), double()) { return u.std(); }
template <class U> double dev(const U&, long) { return -1.0; }

struct Base {
  virtual ~Base() {}
  virtual void advect(long n, double dt) = 0;
  virtual double sum() = 0;
  virtual double std() = 0;
  virtual void print() = 0;
  virtual void vtk(const std::string&) = 0;
};
template <size_t ND> struct Wrap : Base {
  Upwind<ND> u;
  Wrap(const std::vector<double>& v, const std::vector<double>& L, const Dims& n) : u(v, L, n) {}
  void advect(long n, double dt) { adv(u, n, dt, 0); }
  double sum() { return u.checksum(); }
  double std() { return dev(u, 0); }
  void print() { u.print(); }
  void vtk(const std::string& f) { u.saveVTK(f); }
};
static Base* make(size_t nd, const std::vector<double>& v, const std::vector<double>& L, const Dims& n) {
#if NDMIN <= 1
  if (nd == 1) return new Wrap<1>(v, L, n);
  if (nd == 2) return new Wrap<2>(v, L, n);
  if (nd == 4) return new Wrap<4>(v, L, n);
  if (nd == 5) return new Wrap<5>(v, L, n);
#endif
  if (nd == 3) return new Wrap<3>(v, L, n);
  fprintf(stderr, "bad number of dimensions\n");
  exit(9);
}
static std::vector<double> field(Base& b) {
  std::ostringstream ss;
  std::streambuf* old = std::cout.rdbuf(ss.rdbuf());
  std::streamsize op = std::cout.precision(17);
  b.print();
  std::cout.precision(op);
  std::cout.rdbuf(old);
  std::vector<double> res;
  const std::string& s = ss.str();
  const char* c = s.c_str();
  while (*c) {
    char* q;
    long i = strtol(c, &q, 10);
    if (q == c) break;
    double v = strtod(q, &q);
    if ((size_t) i >= res.size()) res.resize(i + 1, std::numeric_limits<double>::quiet_NaN());
    res[i] = v;
    while (*q && *q != '\n') ++q;
    if (*q) ++q;
    c = q;
  }
  return res;
}

int main(int, char** argv) {
  vf_dir = getenv("VF_OUT");
  vf_out = fopen((vf_dir + "/f.0.bin").c_str(), "wb");
  vf_prog = fopen((vf_dir + "/f.0.prog").c_str(), "w");
  std::ifstream in(argv[1]);
  std::map<int, std::unique_ptr<Base> > objs;  // one after another, or several alive (use k)
  int cur = 0;
  std::string op;
  while (in >> op) {
    if (op == "end") break;
    if (op == "case") {
      int k;
      in >> k;
      rec("case", {}, k);
      cur = 0;
      while (objs.size() && objs.rbegin()->first > 0) objs.erase(objs.rbegin()->first);
      fprintf(vf_prog, "%d\n", k);
      fflush(vf_prog);
    } else if (op == "use") {
      in >> cur;
    } else if (op == "new") {
      size_t nd;
      in >> nd;
      Dims n;
      n.d.resize(nd);
      std::vector<double> v(nd), L(nd);
      for (auto& x : n.d) in >> x;
      for (auto& x : v) in >> x;
      for (auto& x : L) in >> x;
      objs[cur].reset(make(nd, v, L, n));
    } else if (op == "thr") {
      int k;
      in >> k;
#ifdef HAVE_OPENMP
      omp_set_num_threads(k);
#endif
    } else if (op == "adv") {
      long n;
      double dt;
      in >> n >> dt;
      objs[cur]->advect(n, dt);
    } else if (op == "dump") rec("dump", field(*objs[cur]));
    else if (op == "sum") rec("sum", {objs[cur]->sum()});
    else if (op == "std") rec("std", {objs[cur]->std()});
    else if (op == "vtk") { std::string f; in >> f; objs[cur]->vtk(vf_dir + "/" + f); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); return 9; }
  }
  objs.clear();
  fclose(vf_out);
  fclose(vf_prog);
  return 0;
}
