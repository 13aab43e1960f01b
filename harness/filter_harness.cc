// Runs Filter operation sequences on every rank (under simMPI or a real MPI).
// argv: case file.  Results go to $VF_OUT/f.<rank>.bin, progress to f.<rank>.prog
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "Filter.h"

static std::vector<double> pa;     // position function: pa0 + sum pa_j x_j + cross term
static std::vector<long> ia;       // index function coefficients
static long imod = 1;
static std::vector<double> posLog; // all positions the library asked for
static std::vector<double> idxLog;
static const size_t LOGMAX = 4000000;

static double fpos(const std::vector<double>& x) {
  double s = pa[0];
  for (size_t j = 0; j < x.size(); ++j) s += pa[1 + j] * x[j];
  if (posLog.size() < LOGMAX) posLog.insert(posLog.end(), x.begin(), x.end());
  return s;
}
static double finds(const std::vector<size_t>& i) {
  long s = ia[0];
  for (size_t j = 0; j < i.size(); ++j) {
    s = (s * 31 + ia[1 + j] * (long) i[j]) % imod;
  }
  if (idxLog.size() < LOGMAX) for (size_t j = 0; j < i.size(); ++j) idxLog.push_back((double) i[j]);
  return double(s) / double(imod) - 0.25;
}

static FILE* out;
static void rec(const char* tag, const std::vector<double>& v, double aux = 0) {
  char t[8] = {0};
  strncpy(t, tag, 8);
  int64_t n = (int64_t) v.size();
  fwrite(t, 1, 8, out);
  fwrite(&aux, 8, 1, out);
  fwrite(&n, 8, 1, out);
  if (n) fwrite(v.data(), 8, v.size(), out);
}

// run fn with cerr captured, parse lines "... inds = i j k ... = value"
template <class F> static void dump(const char* tag, size_t ndims, double aux, F fn) {
  std::ostringstream ss;
  ss.precision(17);
  std::streambuf* old = std::cerr.rdbuf(ss.rdbuf());
  std::streamsize op = std::cerr.precision(17);
  fn();
  std::cerr.precision(op);
  std::cerr.rdbuf(old);
  std::string s = ss.str();
  std::vector<double> res;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    std::string line = s.substr(p, e - p);
    p = e + 1;
    size_t a = line.find("inds");
    if (a == std::string::npos) continue;
    const char* c = line.c_str() + a;
    c = strchr(c, '=');
    if (!c) continue;
    ++c;
    for (size_t j = 0; j < ndims; ++j) {
      char* q;
      res.push_back(strtod(c, &q));
      c = q;
    }
    const char* v = strrchr(line.c_str(), '=');
    res.push_back(strtod(v + 1, 0));
  }
  rec(tag, res, aux);
}

static double pulse(const std::vector<size_t>& i) {
  for (size_t j = 0; j < i.size(); ++j) if (i[j] != 0) return 0.0;
  return 1.0;
}

struct Obj {
  std::unique_ptr<Filter> f;
  size_t nd;
};

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int rk, sz;
  MPI_Comm_rank(MPI_COMM_WORLD, &rk);
  MPI_Comm_size(MPI_COMM_WORLD, &sz);
  std::string dir = getenv("VF_OUT");
  out = fopen((dir + "/f." + std::to_string(rk) + ".bin").c_str(), "wb");
  FILE* prog = fopen((dir + "/f." + std::to_string(rk) + ".prog").c_str(), "w");
  std::ifstream in(argv[1]);
  std::map<int, Obj> objs;
  std::string op;
  while (in >> op) {
    fprintf(prog, "%s\n", op.c_str());
    fflush(prog);
    int k;
    if (op == "case") { in >> k; rec("case", {}, k); continue; }
    if (op == "end") break;
    in >> k;
    if (op == "new") {
      size_t nd, ns;
      in >> nd;
      std::vector<size_t> dims(nd);
      std::vector<double> lo(nd), hi(nd);
      for (auto& x : dims) in >> x;
      for (auto& x : lo) in >> x;
      for (auto& x : hi) in >> x;
      in >> ns;
      std::map<std::vector<int>, double> st;
      for (size_t i = 0; i < ns; ++i) {
        std::vector<int> o(nd);
        for (auto& x : o) in >> x;
        double w;
        in >> w;
        st[o] = w;
      }
      objs[k].f.reset(new Filter(dims, lo, hi, st));
      objs[k].nd = nd;
      rec("valid", {(double) objs[k].f->isDecompValid(), (double) objs[k].f->getRank(), (double) objs[k].f->getNumProcs()});
      continue;
    }
    Obj& o = objs[k];
    Filter& f = *o.f;
    if (op == "del") { o.f.reset(); }
    else if (op == "setpos") {
      pa.resize(o.nd + 1);
      for (auto& x : pa) in >> x;
      posLog.clear();
      f.setInData(fpos);
      rec("poslog", posLog);
    }
    else if (op == "setidx") {
      ia.resize(o.nd + 1);
      for (auto& x : ia) in >> x;
      in >> imod;
      idxLog.clear();
      f.setInDataByIndices(finds);
      rec("idxlog", idxLog);
    }
    else if (op == "where") {        // positions of given cells, owned or not
      size_t m;
      in >> m;
      std::vector<double> res;
      for (size_t i = 0; i < m; ++i) {
        std::vector<size_t> inds(o.nd);
        for (auto& x : inds) in >> x;
        const std::vector<double> x = f.getPosition(inds);
        res.insert(res.end(), x.begin(), x.end());
      }
      rec("where", res);
    }
    else if (op == "setpulse") f.setInDataByIndices(pulse);
    else if (op == "apply") f.applyFilter();
    else if (op == "copy") f.copyOutToIn();
    else if (op == "in") dump("in", o.nd, k, [&] { f.printInData(); });
    else if (op == "out") dump("out", o.nd, k, [&] { f.printOutData(); });
    else if (op == "win" || op == "dst") {
      std::vector<int> side(o.nd);
      for (auto& x : side) in >> x;
      if (op == "win") dump("win", o.nd, k, [&] { f.printSrcDataWindow(side); });
      else dump("dst", o.nd, k, [&] { f.printDstDataWindow(side); });
    }
    else if (op == "sumin") rec("sumin", {f.computeCheckSum("input")});
    else if (op == "sumout") rec("sumout", {f.computeCheckSum("output")});
    else if (op == "vtk") {
      std::string fn;
      in >> fn;
      f.saveVTK(dir + "/" + fn);
    }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); return 9; }
  }
  objs.clear();
  fclose(out);
  fclose(prog);
  MPI_Finalize();
  return 0;
}
