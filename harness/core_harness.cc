// Executes cases on CubeDecomp and MultiArrayIter and judges every observation
// against an independent model. Usage: core_harness <file>; one case per line:
//   D <i> <nprocs> <nd> <extents> <checks: t|c|n...> <seed>     decomposition
//   I <i> <nd> <lo> <extents> <rowMajor> <seed>                 iterator
// A case may name several decompositions to be built in turn on one object:
//   S <i> <checks> <seed> <count> { <nprocs> <nd> <extents> }*
//   J <i> <seed> <count> { <nd> <lo> <extents> <rowMajor> }*
#include "CubeDecomp.h"
#include "MultiArrayIter.h"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

typedef std::vector<size_t> V;
typedef unsigned __int128 u128;
static long nBoxes, nNeigh, nVisits, nMoves, nValid, nInvalid, nCand;
static std::mt19937_64 rng;

static std::string str(const V& v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + ")";
}

static void decomps(const V& n, size_t j, size_t p, V& cur, std::vector<V>& res) {
  if (j == n.size()) {
    if (p == 1) res.push_back(cur);
    return;
  }
  for (size_t d = 1; d <= p && d <= n[j]; ++d)
    if (p % d == 0 && n[j] % d == 0) {
      cur[j] = d;
      decomps(n, j + 1, p / d, cur, res);
    }
}

static std::string judgeDecomp(CubeDecomp& cd, bool ok, int np, const V& n, const std::string& what) {
  const size_t nd = n.size();
  std::vector<V> all;
  V cur(nd);
  decomps(n, 0, np, cur, all);
  nCand += all.size();
  bool tiles = what.find('t') != std::string::npos, cost = what.find('c') != std::string::npos, neigh = what.find('n') != std::string::npos;
  if (tiles) {
    if (ok != !all.empty())
      return std::string("a decomposition is ") + (ok ? "reported but none exists" : "not found although one exists, e.g. " + str(all[0]));
    V d = cd.getDecomp();
    if (d.empty() == ok) return "the reported decomposition is " + str(d);
  }
  (ok ? nValid : nInvalid)++;
  if (!ok || all.empty()) return "";
  std::vector<V> beg(np), end(np);
  std::vector<int> order(np);
  for (int r = 0; r < np; ++r) order[r] = r;
  std::shuffle(order.begin(), order.end(), rng);
  for (int r : order) {
    if (rng() & 1) {
      beg[r] = cd.getBegIndices(r);
      end[r] = cd.getEndIndices(r);
    } else {
      end[r] = cd.getEndIndices(r);
      beg[r] = cd.getBegIndices(r);
    }
    nBoxes++;
  }
  V loc(nd);
  for (size_t j = 0; j < nd; ++j) loc[j] = end[0].at(j) - beg[0].at(j);
  std::map<V, int> at;
  for (int r = 0; r < np; ++r) at[beg[r]] = r;
  if (tiles) {
    V d = cd.getDecomp();
    size_t prod = 1;
    if (d.size() != nd) return "the decomposition " + str(d) + " has the wrong number of axes";
    for (size_t j = 0; j < nd; ++j) {
      prod *= d[j];
      if (d[j] == 0 || n[j] % d[j] || n[j] / d[j] != loc[j]) return "the decomposition " + str(d) + " is not that of the boxes " + str(loc);
    }
    if (prod != (size_t) np) return "the decomposition " + str(d) + " is not for that many processes";
    u128 total = 1, vol = 1;
    for (size_t j = 0; j < nd; ++j) {
      total *= n[j];
      vol *= loc[j];
    }
    for (int r = 0; r < np; ++r) {
      if (beg[r].size() != nd || end[r].size() != nd) return "the box of rank " + std::to_string(r) + " has the wrong number of axes";
      for (size_t j = 0; j < nd; ++j) {
        if (beg[r][j] >= end[r][j] || end[r][j] > n[j]) return "the box " + str(beg[r]) + "-" + str(end[r]) + " of rank " + std::to_string(r) + " is empty or leaves the grid";
        if (end[r][j] - beg[r][j] != loc[j]) return "the boxes of rank 0 and " + std::to_string(r) + " differ in size";
      }
    }
    if (vol * np != total) return "the boxes do not have the volume of the grid";
    if (total <= 20000) {  // count the owners of every cell
      std::vector<int> cnt((size_t) total, 0);
      for (int r = 0; r < np; ++r) {
        V x = beg[r];
        for (;;) {
          size_t k = 0;
          for (size_t j = 0; j < nd; ++j) k = k * n[j] + x[j];
          cnt[k]++;
          size_t j = nd;
          while (j > 0 && ++x[j - 1] == end[r][j - 1]) {
            x[j - 1] = beg[r][j - 1];
            --j;
          }
          if (j == 0) break;
        }
      }
      for (size_t k = 0; k < cnt.size(); ++k)
        if (cnt[k] != 1) return "cell " + std::to_string(k) + " is owned by " + std::to_string(cnt[k]) + " processes";
    } else {  // equal boxes of the grid's volume: disjoint if the corners are distinct multiples of the size
      if (at.size() != (size_t) np) return "two ranks own the same box";
      for (int r = 0; r < np; ++r)
        for (size_t j = 0; j < nd; ++j)
          if (beg[r][j] % loc[j]) return "the box of rank " + std::to_string(r) + " overlaps others";
    }
  }
  if (cost) {
    // the sub-domain volume is the same for all: compare sum 1/l
    auto c = [&](const V& d) {
      long double s = 0;
      for (size_t j = 0; j < nd; ++j) s += 1.0L / (n[j] / d[j]);
      return s;
    };
    long double best = c(all[0]);
    V bd = all[0];
    for (auto& d : all)
      if (c(d) < best) {
        best = c(d);
        bd = d;
      }
    long double got = 0;
    for (size_t j = 0; j < nd; ++j) got += 1.0L / (long double) loc[j];
    if (got > best * (1 + 1e-12L)) {
      V l(nd);
      for (size_t j = 0; j < nd; ++j) l[j] = n[j] / bd[j];
      char b[80];
      snprintf(b, sizeof b, " has surface/volume %.12Lg, the best is %.12Lg with ", got, best);
      return "the chosen box " + str(loc) + b + str(l);
    }
    if (got < best * (1 - 1e-12L)) return "the chosen boxes " + str(loc) + " do not divide the grid";
  }
  if (neigh) {
    size_t nsides = 1;
    for (size_t j = 0; j < nd; ++j) nsides *= 3;
    const int lim = std::max(16, (int) (24000 / nsides)), step = np > lim ? np / lim : 1;
    for (int r = 0; r < np; r += step)
      for (size_t q = 0; q < nsides; ++q) {
        std::vector<int> dir(nd), opp(nd);
        size_t m = q;
        V want(nd);
        for (size_t j = 0; j < nd; ++j) {
          dir[j] = int(m % 3) - 1;
          opp[j] = -dir[j];
          m /= 3;
          want[j] = (beg[r][j] + n[j] + dir[j] * (long) loc[j]) % n[j];
        }
        int w = at.count(want) ? at[want] : -1;
        int g = cd.getNeighborRank(r, dir);
        nNeigh++;
        std::string ds;
        for (int x : dir) ds += " " + std::to_string(x);
        if (g < 0 || g >= np) return "the neighbour of rank " + std::to_string(r) + " in direction" + ds + " is " + std::to_string(g);
        if (g != w) return "the neighbour of rank " + std::to_string(r) + " in direction" + ds + " is " + std::to_string(g) + ", the adjacent box is that of " + std::to_string(w);
        int b = cd.getNeighborRank(g, opp);
        if (b != r) return "going from rank " + std::to_string(r) + " in direction" + ds + " and back leads to " + std::to_string(b);
      }
    // several boxes at once, up to once round the process grid
    for (int t = 0; t < 24; ++t) {
      const int r = (int) (rng() % np);
      std::vector<int> dir(nd), opp(nd);
      V want(nd);
      std::string ds;
      for (size_t j = 0; j < nd; ++j) {
        const int len = (int) (n[j] / loc[j]);
        const int k = (int) (rng() % 6);
        dir[j] = k == 0 ? len : k == 1 ? -len : k == 2 ? 0 : (int) (rng() % (2 * (size_t) len + 1)) - len;
        opp[j] = -dir[j];
        ds += " " + std::to_string(dir[j]);
        want[j] = (size_t) ((((long) (beg[r][j] / loc[j]) + dir[j] + len) % len) * (long) loc[j]);
      }
      const int w = at.count(want) ? at[want] : -1, g = cd.getNeighborRank(r, dir);
      nNeigh++;
      if (g != w) return "the process displaced by" + ds + " boxes from rank " + std::to_string(r) + " is " + std::to_string(g) + ", the box there is that of " + std::to_string(w);
      const int b = cd.getNeighborRank(g, opp);
      if (b != r) return "going from rank " + std::to_string(r) + " by" + ds + " boxes and back leads to " + std::to_string(b);
    }
    for (size_t j = 0; j < nd; ++j) {
      const size_t len = n[j] / loc[j];
      for (int s = -1; s <= 1; s += 2) {
        int r0 = (int) (rng() % np), r = r0;
        std::vector<int> dir(nd, 0);
        dir[j] = s;
        std::set<int> seen;
        for (size_t k = 0; k < len; ++k) {
          if (!seen.insert(r).second) return "walking along axis " + std::to_string(j) + " meets rank " + std::to_string(r) + " twice";
          r = cd.getNeighborRank(r, dir);
          nNeigh++;
          if (r < 0 || r >= np) return "walking along an axis leads to rank " + std::to_string(r);
        }
        if (r != r0) return "walking round axis " + std::to_string(j) + " does not return";
      }
    }
  }
  // questions of all kinds mixed, often about the same rank again
  int r = 0;
  for (int t = 0; t < 40; ++t) {
    const int c = rng() % 4;
    if (rng() % 3) r = rng() % 4 == 0 ? 0 : (int) (rng() % np);
    const std::string who = std::to_string(r) + ", asked for again,";
    if (c == 0 && cd.getBegIndices(r) != beg[r]) return "the box of rank " + who + " begins at " + str(cd.getBegIndices(r)) + " instead of " + str(beg[r]);
    if (c == 1 && cd.getEndIndices(r) != end[r]) return "the box of rank " + who + " ends at " + str(cd.getEndIndices(r)) + " instead of " + str(end[r]);
    if (c >= 2) {
      std::vector<int> dir(nd);
      V want(nd);
      for (size_t j = 0; j < nd; ++j) {
        dir[j] = (int) (rng() % 3) - 1;
        want[j] = (beg[r][j] + n[j] + dir[j] * (long) loc[j]) % n[j];
      }
      const int g = cd.getNeighborRank(r, dir);
      if (neigh && g != (at.count(want) ? at[want] : -1)) return "a neighbour of rank " + who + " is rank " + std::to_string(g);
    }
  }
  return "";
}

static V unflat(size_t k, const V& lo, const V& ext, bool row) {
  const size_t nd = lo.size();
  V x(nd);
  for (size_t q = 0; q < nd; ++q) {
    size_t j = row ? nd - 1 - q : q;
    x[j] = lo[j] + k % ext[j];
    k /= ext[j];
  }
  return x;
}

static std::string judgeIter(MultiArrayIter& it, const V& lo, const V& ext, bool row) {
  const size_t nd = lo.size();
  V hi(nd);
  size_t vol = 1;
  for (size_t j = 0; j < nd; ++j) {
    hi[j] = lo[j] + ext[j];
    vol *= ext[j];
  }
  auto meta = [&]() -> std::string {
    if (it.getNumberOfTerms() != vol) return "the number of terms is " + std::to_string(it.getNumberOfTerms()) + ", the volume " + std::to_string(vol);
    if (it.getLBegIndices() != lo || it.getEndIndices() != hi) return "the reported corners are " + str(it.getLBegIndices()) + " " + str(it.getEndIndices());
    return "";
  };
  std::string bad = meta();
  if (!bad.empty() || vol == 0) return bad;
  if (it.getIndices() != lo) return "a new iterator is at " + str(it.getIndices());
  if (rng() & 1) it.begin();
  const size_t lim = vol <= 20000 ? vol : 2000;
  int rounds = 1 + (rng() % 3 == 0);
  for (int round = 0; round < rounds; ++round) {
    V want = lo;
    for (size_t k = 0; k < lim; ++k) {
      V g = it.getIndices();
      nVisits++;
      if (g != want) return "step " + std::to_string(k) + " visits " + str(g) + " instead of " + str(want);
      if (it.computeBigIndex(g) != k) return "the flat position of " + str(g) + " is " + std::to_string(it.computeBigIndex(g)) + ", it is visited at step " + std::to_string(k);
      it.next();
      // odometer
      for (size_t q = 0; q < nd; ++q) {
        size_t j = row ? nd - 1 - q : q;
        if (++want[j] < hi[j]) break;
        want[j] = lo[j];
      }
    }
    it.begin();
    if (it.getIndices() != lo) return "restarting leads to " + str(it.getIndices());
  }
  for (int k = 0; k < 40; ++k) {
    size_t p = rng() % vol;
    if (k == 0) p = vol - 1;
    V want = unflat(p, lo, ext, row);
    if (it.computeBigIndex(want) != p) return "the flat position of " + str(want) + " is " + std::to_string(it.computeBigIndex(want)) + " instead of " + std::to_string(p);
    it.move(p);
    nMoves++;
    MultiArrayIter copy(it);
    if (it.getIndices() != want) return "moving to " + std::to_string(p) + " leads to " + str(it.getIndices()) + " instead of " + str(want);
    for (int q = 0; q < 3 && p + 1 < vol; ++q) {
      it.next();
      ++p;
      if (it.getIndices() != unflat(p, lo, ext, row)) return "after moving, step " + std::to_string(p) + " visits " + str(it.getIndices());
    }
    if (copy.getIndices() != want) return "a copy moves along with the original";
    bool small = vol < 2000000000u;
    for (size_t j = 0; j < nd; ++j) small = small && hi[j] < 2000000000u;
    if (small) {  // index sets may be given as int
      std::vector<int> w(want.begin(), want.end());
      size_t p0 = it.computeBigIndex(want);
      if ((size_t) it.computeBigIndex(w) != p0) return "the flat position of " + str(want) + " given as int differs";
    }
    if (rng() % 8 == 0) {
      it.begin();
      if (it.getIndices() != lo) return "restarting leads to " + str(it.getIndices());
    }
  }
  return meta();
}

int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    char k;
    long i;
    if (!(s >> k >> i)) continue;
    std::cout << "start " << i << std::endl;
    std::string bad;
    if (k == 'S') {
      std::string what;
      unsigned long seed;
      int cnt;
      s >> what >> seed >> cnt;
      rng.seed(seed);
      std::unique_ptr<CubeDecomp> cd;
      for (int c = 0; c < cnt && bad.empty(); ++c) {
        int np;
        size_t nd;
        s >> np >> nd;
        V n(nd);
        for (auto& x : n) s >> x;
        bool ok;
        if (!cd && (rng() & 1)) {
          cd.reset(new CubeDecomp(np, n));
          ok = !cd->getDecomp().empty();
        } else {
          if (!cd) cd.reset(new CubeDecomp());
          ok = cd->build(np, n);
        }
        bad = judgeDecomp(*cd, ok, np, n, what);
        if (!bad.empty()) bad = "grid " + str(n) + " over " + std::to_string(np) + " processes: " + bad;
      }
    } else {
      unsigned long seed;
      int cnt;
      s >> seed >> cnt;
      rng.seed(seed);
      std::unique_ptr<MultiArrayIter> it;
      for (int c = 0; c < cnt && bad.empty(); ++c) {
        size_t nd;
        int row;
        s >> nd;
        V lo(nd), ext(nd), hi(nd);
        for (auto& x : lo) s >> x;
        for (auto& x : ext) s >> x;
        s >> row;
        for (size_t j = 0; j < nd; ++j) hi[j] = lo[j] + ext[j];
        if (!it && (rng() & 1))
          it.reset(new MultiArrayIter(lo, hi, row != 0));
        else {
          if (!it) it.reset(new MultiArrayIter());
          it->build(lo, hi, row != 0);
        }
        bad = judgeIter(*it, lo, ext, row != 0);
        if (!bad.empty()) bad = "box " + str(lo) + "+" + str(ext) + (row ? " row-major: " : " column-major: ") + bad;
      }
    }
    if (bad.empty())
      std::cout << "ok " << i << "\n";
    else
      std::cout << "bad " << i << " " << bad << std::endl;
  }
  std::cout << "stat boxes " << nBoxes << "\nstat neighbours " << nNeigh << "\nstat visits " << nVisits << "\nstat moves " << nMoves
            << "\nstat grids_with_decomposition " << nValid << "\nstat grids_without_decomposition " << nInvalid << "\nstat candidate_decompositions " << nCand << "\n";
  return 0;
}
