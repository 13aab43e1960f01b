// writeVTK on given grids and fields. Per line: <file> <nd> <dims> <lo> <hi> <name> <field...>
#include "writeVTK.h"
#include <cstdlib>
#include <fstream>
#include <string>
#include <vector>
int main(int, char** argv) {
  std::ifstream in(argv[1]);
  std::string fn, name, t;
  while (in >> fn) {
    size_t nd, tot = 1;
    in >> nd;
    std::vector<size_t> n(nd);
    std::vector<double> lo(nd), hi(nd);
    for (auto& x : n) { in >> x; tot *= x; }
    for (auto& x : lo) { in >> t; x = strtod(t.c_str(), nullptr); }
    for (auto& x : hi) { in >> t; x = strtod(t.c_str(), nullptr); }
    in >> name;
    std::vector<double> f(tot);
    for (auto& x : f) { in >> t; x = strtod(t.c_str(), nullptr); }
    writeVTK(fn, n, lo, hi, f, name);
  }
  return 0;
}
