// simMPI: monitoring MPI runtime.
//
// Every rank is a forked process (own globals, own stdout/stderr). All MPI
// calls are sent to a coordinator process which (1) lets exactly one rank run
// at a time, chosen by a seeded strategy (so runs are reproducible), (2) moves
// the data of one-sided accesses at a seeded moment allowed by the MPI rules,
// and (3) checks the rules online.  A summary (JSON) goes to $SIMMPI_SUMMARY.
//
// Environment: SIMMPI_N ranks, SIMMPI_SEED, SIMMPI_XFER=eager|lazy|random,
// SIMMPI_OUT directory for rank.<n>.out/.err, SIMMPI_SUMMARY file,
// SIMMPI_HANG seconds a rank may compute between two calls,
// SIMMPI_TRACE file (optional) for the event log.
#include "mpi.h"
#include <array>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <limits>
#include <map>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#endif

extern int prog_main(int, char **);

namespace {

enum Op { OP_NONE, OP_INIT, OP_FINALIZE, OP_ABORT, OP_EXIT, OP_ALLOC, OP_FREEMEM,
          OP_WINCREATE, OP_WINFREE, OP_FENCE, OP_GET, OP_PUT, OP_BARRIER, OP_BCAST,
          OP_REDUCE, OP_ALLREDUCE, OP_GATHER, OP_GATHERV, OP_ALLGATHER, OP_SEND, OP_ISEND,
          OP_RECV, OP_IRECV, OP_WAIT, OP_COMMDUP, OP_COMMFREE, OP_WTIME, OP_MISC, OP_VIOL, OP_LOCK, OP_UNLOCK, OP_FLUSH };
const char *opName[] = {"none", "Init", "Finalize", "Abort", "exit", "Alloc_mem", "Free_mem",
          "Win_create", "Win_free", "Win_fence", "Get", "Put", "Barrier", "Bcast",
          "Reduce", "Allreduce", "Gather", "Gatherv", "Allgather", "Send", "Isend",
          "Recv", "Irecv", "Wait", "Comm_dup", "Comm_free", "Wtime", "query", "violation", "Win_lock", "Win_unlock", "Win_flush"};
enum Cmd { CMD_RETURN, CMD_READ, CMD_WRITE, CMD_POISON, CMD_UNPOISON, CMD_ISBAD };

const int NARG = 12;
struct Slot {
  sem_t go;
  int cmd;
  long ca[3];
  long ret, ret2, ret3;
  int op;
  long arg[NARG];
};
struct Shared {
  sem_t coord;
};

Shared *sh;
Slot *slots;
char *bulk;
size_t bulkSize;
int N = 1;
int me = -1;  // -1 in the coordinator

// ---------------------------------------------------------------- rank side
bool bad(const void *p, size_t n) {
#ifdef HAVE_ASAN
  if (n == 0) return false;
  return __asan_region_is_poisoned(const_cast<void *>(p), n) != nullptr;
#else
  (void)p; (void)n;
  return false;
#endif
}

void post(sem_t *s) { sem_post(s); }
void waitSem(sem_t *s) {
  while (sem_wait(s) != 0) {
  }
}

#ifdef HAVE_ASAN
__attribute__((no_sanitize("address")))
#endif
void rawCopy(char *d, const char *s, size_t n) {
  // used to deliver data into a buffer that is poisoned until its epoch ends
  volatile char *dd = d;
  for (size_t i = 0; i < n; ++i) dd[i] = s[i];
}

long call(int op, std::initializer_list<long> args) {
  Slot &s = slots[me];
  s.op = op;
  int i = 0;
  for (long a : args) s.arg[i++] = a;
  for (; i < NARG; ++i) s.arg[i] = 0;
  post(&sh->coord);
  char *b = bulk + (size_t)me * bulkSize;
  for (;;) {
    waitSem(&s.go);
    if (s.cmd == CMD_RETURN) return s.ret;
    char *p = (char *)s.ca[0];
    size_t n = (size_t)s.ca[1];
    switch (s.cmd) {
    case CMD_READ: memcpy(b, p, n); break;
    case CMD_WRITE:
      if (s.ca[2]) rawCopy(p, b, n);
      else memcpy(p, b, n);
      break;
#ifdef HAVE_ASAN
    case CMD_POISON: __asan_poison_memory_region(p, n); break;
    case CMD_UNPOISON: __asan_unpoison_memory_region(p, n); break;
#endif
    case CMD_ISBAD: s.ret = bad(p, n); break;
    default: break;
    }
    post(&sh->coord);
  }
}
void exitHook() {
  if (me >= 0) {
    slots[me].op = OP_EXIT;
    post(&sh->coord);
  }
}

// --------------------------------------------------------- coordinator side
uint64_t rng_s;
uint64_t rnd() {
  rng_s += 0x9E3779B97F4A7C15ull;
  uint64_t z = rng_s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
long rndn(long n) { return (long)(rnd() % (uint64_t)n); }

struct PGet {
  int origin, target;
  long addr, bytes, off;  // off: byte offset in the target's window
  int epoch;              // number of fences the origin had entered
  bool delivered;
  std::vector<char> data;
  bool isPut;
  std::vector<char> snap;  // passive target: what the target held at the call
};
struct WinRank {
  long base = 0, size = 0;
  int du = 1;
  int fences = 0;
  int lastAssert = 0;
  bool open = false;           // an access/exposure epoch is open
  bool inFence = false, freed = false;
  std::vector<char> snap;      // window content when the epoch was opened
  std::vector<char> prevOpen, prevClose;  // the same for the epoch closed last
  std::vector<char> atSync;    // window content at the last fence
  bool synced = false;
};
struct Win {
  std::vector<WinRank> r;
  std::vector<PGet> ops;
  std::vector<PGet> pops;                 // accesses of passive target epochs
  std::map<std::pair<int, int>, int> locks;      // (origin, target) -> type
  std::vector<std::array<int, 3>> lockWait;      // origin, target (-1: all), type
  std::vector<std::vector<int>> asserts;  // [fence][rank], -1 when not entered
  int comm;
};
struct Coll {
  int op = 0, root = 0, count = 0, dt = 0, mop = 0;
  int comm = 0;
  int first = -1;
  int nArr = 0, nDone = 0;
  std::vector<int> arrived;
  std::vector<std::vector<char>> contrib;
};
struct Msg {
  int src, tag;
  std::vector<char> data;
  int sender;  // rank blocked in a synchronous send, or -1
};
struct Req {
  bool recv = false, done = false, freed = false;
  long addr = 0, bytes = 0;
  int src = 0, tag = 0, comm = 0;
  int gotSrc = 0, gotTag = 0;
  long got = 0;
};
enum St { READY, BLOCKED, DONE };
struct Rank {
  pid_t pid = 0;
  St st = READY;
  long ret = 0;
  bool inited = false, finalized = false, exited = false;
  std::map<int, int> seq;  // comm -> next collective
  std::map<long, long> mem;  // live MPI_Alloc_mem blocks
  std::vector<long> deadmem;
  std::vector<std::string> log;
  int cur = 0;
  long carg[NARG];
  std::vector<Req> reqs;
};
std::vector<Rank> R;
std::vector<Win> W;
std::map<std::pair<int, int>, Coll> C;                 // (comm, index)
std::map<std::pair<int, int>, std::deque<Msg>> mail;   // (comm, dest)
std::map<std::pair<int, int>, std::deque<int>> posted; // (comm, dest) -> request ids
int nextComm = 3;
std::set<int> comms{1, 2};
enum { X_EAGER, X_LAZY, X_RANDOM } xfer = X_RANDOM;
std::vector<std::string> viols;
bool stopAll = false;
std::map<std::string, long> counts;
uint64_t schedHash = 1469598103934665603ull;
uint64_t traceHash = 1469598103934665603ull;
long nGrants = 0, clockTick = 0;
FILE *trace = nullptr;
volatile sig_atomic_t gotChld = 0;
double hangSec = 60;

void mix(uint64_t &h, uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }

void viol(const char *fmt, ...) {
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  viols.push_back(buf);
  stopAll = true;
  if (trace) fprintf(trace, "VIOLATION %s\n", buf);
}

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

void reapDeath(int r, int status) {
  R[r].exited = true;
  R[r].st = DONE;
  if (WIFSIGNALED(status)) viol("crash: rank %d was killed by signal %d", r, WTERMSIG(status));
  else if (WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 98)
    viol("sanitizer: rank %d stopped by a sanitizer report", r);
  else if (!(R[r].finalized || (!R[r].inited)))
    viol("exit: rank %d exited with status %d between Init and Finalize", r, WEXITSTATUS(status));
  counts[WEXITSTATUS(status) ? "exit_nonzero" : "exit_zero"]++;
}

// wait until rank r talks to us; false if it died or hangs
bool waitMsg(int r) {
  double t0 = now();
  for (;;) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_nsec += 100000000;
    if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
    int rc = sem_timedwait(&sh->coord, &ts);
    if (rc == 0) return true;
    int status;
    pid_t p = waitpid(R[r].pid, &status, WNOHANG);
    if (p == R[r].pid) {
      if (sem_trywait(&sh->coord) == 0) { // posted exit, then died
        R[r].exited = true;
        reapDeath(r, status);
        return false;
      }
      reapDeath(r, status);
      if (!WIFSIGNALED(status) && viols.empty()) viol("exit: rank %d vanished with status %d", r, WEXITSTATUS(status));
      return false;
    }
    if (now() - t0 > hangSec) {
      viol("hang: rank %d computes for more than %g s without returning", r, hangSec);
      return false;
    }
  }
}

bool svc(int r, int cmd, long a, long n, long flag = 0) {
  if (n == 0 && cmd != CMD_ISBAD) return true;
  Slot &s = slots[r];
  s.cmd = cmd;
  s.ca[0] = a;
  s.ca[1] = n;
  s.ca[2] = flag;
  post(&s.go);
  return waitMsg(r);
}
std::vector<char> rd(int r, long addr, long n) {
  if ((size_t)n > bulkSize) { viol("internal: bulk area too small (%ld)", n); return std::vector<char>(n); }
  std::vector<char> v(n);
  if (n && svc(r, CMD_READ, addr, n)) memcpy(v.data(), bulk + (size_t)r * bulkSize, n);
  return v;
}
bool wr(int r, long addr, const std::vector<char> &v, bool raw = false) {
  if (v.size() > bulkSize) { viol("internal: bulk area too small"); return false; }
  if (v.empty()) return true;
  memcpy(bulk + (size_t)r * bulkSize, v.data(), v.size());
  return svc(r, CMD_WRITE, addr, (long)v.size(), raw);
}
bool isBad(int r, long addr, long n) {
  if (n <= 0) return false;
  if (addr == 0) return true;
  if (!svc(r, CMD_ISBAD, addr, n)) return true;
  return slots[r].ret != 0;
}
void ready(int r, long ret = 0) {
  R[r].st = READY;
  R[r].ret = ret;
}

int dtSize(int dt) { return dt & 0xff; }
int commSize(int c) { return c == MPI_COMM_SELF ? 1 : N; }

// ------------------------------------------------------------- one-sided
bool targetReady(Win &w, const PGet &g) {
  // the target must have entered the fence that opens the epoch
  return w.r[g.target].fences >= g.epoch;
}
void deliver(int wi, PGet &g) {
  Win &w = W[wi];
  if (g.delivered) return;
  WinRank &t = w.r[g.target];
  if (g.isPut) {
    if (g.data.empty()) g.data = rd(g.origin, g.addr, g.bytes);
    if (stopAll) return;
    wr(g.target, t.base + g.off, g.data);
  } else {
    std::vector<char> d = rd(g.target, t.base + g.off, g.bytes);
    if (stopAll) return;
    g.data = d;
    wr(g.origin, g.addr, d, true);
  }
  g.delivered = true;
  counts["transfers"]++;
}
void checkStable(int wi, int target) {
  // called when the target enters its next fence: the locations read in this
  // epoch must still hold what they held when the epoch was opened
  Win &w = W[wi];
  WinRank &t = w.r[target];
  if (!t.open || t.size == 0) return;
  bool puts = false;
  for (auto &g : w.ops) puts |= (g.isPut && g.target == target);
  t.prevOpen.clear();
  if (puts) return;
  std::vector<char> nw = rd(target, t.base, t.size);
  if (stopAll) return;
  t.prevOpen.swap(t.snap);
  t.prevClose.swap(nw);
  for (auto &g : w.ops) {
    if (g.isPut || g.target != target) continue;
    counts["stability_checks"]++;
    if (memcmp(t.prevClose.data() + g.off, t.prevOpen.data() + g.off, g.bytes) != 0)
      viol("rma: rank %d modified exposed memory of window %d while rank %d reads it", target, wi, g.origin);
  }
}
void openEpoch(int wi, int r) {
  Win &w = W[wi];
  WinRank &x = w.r[r];
  x.open = true;
  x.snap = rd(r, x.base, x.size);
}
void fenceComplete(int wi, int k) {
  // everybody entered fence k: finish all accesses of the epoch
  Win &w = W[wi];
  std::vector<long> ord;
  for (size_t i = 0; i < w.ops.size(); ++i) ord.push_back((long)i);
  for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[rndn((long)i)]);
  for (long i : ord) {
    if (w.ops[i].epoch < k) deliver(wi, w.ops[i]);
    if (stopAll) return;
  }
  for (auto &g : w.ops)
    if (!g.isPut) {
      svc(g.origin, CMD_UNPOISON, g.addr, g.bytes);
      if (stopAll) return;
    }
  w.ops.clear();
  counts["epochs"]++;
}

// passive target: the access is complete when its target is flushed or unlocked
bool lockFree(Win &w, int r, int target, int type) {
  for (auto &l : w.locks)
    if (l.first.second == target && l.first.first != r && (type == MPI_LOCK_EXCLUSIVE || l.second == MPI_LOCK_EXCLUSIVE)) return false;
  return true;
}
bool takeLock(Win &w, int r, int target, int type) {
  for (int t = 0; t < N; ++t)
    if ((target < 0 || t == target) && !lockFree(w, r, t, type)) return false;
  for (int t = 0; t < N; ++t)
    if (target < 0 || t == target) w.locks[{r, t}] = type;
  return true;
}
void finishPassive(int wi, int r, int target) {
  Win &w = W[wi];
  for (size_t i = 0; i < w.pops.size();) {
    if (w.pops[i].origin != r || (target >= 0 && w.pops[i].target != target)) { ++i; continue; }
    PGet g = w.pops[i];
    deliver(wi, g);
    if (stopAll) return;
    if (!g.isPut) {
      std::vector<char> nw = rd(g.target, w.r[g.target].base + g.off, g.bytes);
      if (stopAll) return;
      counts["stability_checks"]++;
      if (nw != g.snap) { viol("rma: rank %d modified exposed memory of window %d while rank %d reads it", g.target, wi, r); return; }
      svc(g.origin, CMD_UNPOISON, g.addr, g.bytes);
      if (stopAll) return;
    }
    w.pops.erase(w.pops.begin() + (long)i);
  }
}

// ------------------------------------------------------------- collectives
void collMismatch(int r, const Coll &c, int op, int root, int count, int dt, int mop) {
  viol("collective mismatch: rank %d calls %s(root %d, count %d, type %x, op %d) while rank %d called %s(root %d, count %d, type %x, op %d)",
       r, opName[op], root, count, dt, mop, c.first, opName[c.op], c.root, c.count, c.dt, c.mop);
}
template <class T> void red(std::vector<char> &acc, const std::vector<char> &x, int op, bool &ok) {
  size_t n = acc.size() / sizeof(T);
  T *a = (T *)acc.data();
  const T *b = (const T *)x.data();
  for (size_t i = 0; i < n; ++i) {
    switch (op) {
    case MPI_SUM: a[i] = a[i] + b[i]; break;
    case MPI_PROD: a[i] = a[i] * b[i]; break;
    case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
    case MPI_MAX: a[i] = b[i] > a[i] ? b[i] : a[i]; break;
    case MPI_LAND: a[i] = (a[i] != 0) && (b[i] != 0); break;
    case MPI_LOR: a[i] = (a[i] != 0) || (b[i] != 0); break;
    default: ok = false;
    }
  }
}
std::vector<char> reduceAll(Coll &c, int n) {
  std::vector<char> acc = c.contrib[0];
  bool ok = true;
  for (int i = 1; i < n; ++i) {
    switch (c.dt) {
    case MPI_DOUBLE: red<double>(acc, c.contrib[i], c.mop, ok); break;
    case MPI_FLOAT: red<float>(acc, c.contrib[i], c.mop, ok); break;
    case MPI_INT: red<int>(acc, c.contrib[i], c.mop, ok); break;
    case MPI_UNSIGNED: red<unsigned>(acc, c.contrib[i], c.mop, ok); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: red<long>(acc, c.contrib[i], c.mop, ok); break;
    case MPI_UNSIGNED_LONG: case MPI_UINT64_T: case MPI_UNSIGNED_LONG_LONG:
      red<unsigned long>(acc, c.contrib[i], c.mop, ok); break;
    default: red<char>(acc, c.contrib[i], c.mop, ok); break;
    }
  }
  if (!ok) viol("internal: reduction operator %d not supported", c.mop);
  return acc;
}
void enterColl(int r, int op, int comm, int root, int count, int dt, int mop) {
  Rank &k = R[r];
  int idx = k.seq[comm]++;
  Coll *cp;
  if (comm == MPI_COMM_SELF) {
    C[{1000000 + r, idx}] = Coll();
    cp = &C[{1000000 + r, idx}];
  } else
    cp = &C[{comm, idx}];
  Coll &c = *cp;
  int n = commSize(comm);
  if (c.nArr == 0) {
    c.op = op; c.root = root; c.count = count; c.dt = dt; c.mop = mop; c.comm = comm; c.first = r;
    c.contrib.resize(n);
  } else if (c.op != op || c.root != root || c.count != count || c.dt != dt || c.mop != mop) {
    collMismatch(r, c, op, root, count, dt, mop);
    return;
  }
  if (root < 0 || root >= n) { viol("args: %s with root %d on %d processes", opName[op], root, n); return; }
  c.nArr++;
  c.arrived.push_back(r);
  counts["collectives"]++;
  long sb = k.carg[0], rb = k.carg[1];
  long bytes = (long)count * dtSize(dt);
  int slot = comm == MPI_COMM_SELF ? 0 : r;
  bool isRoot = (comm == MPI_COMM_SELF) || r == root;
  // contributions
  if (op == OP_REDUCE || op == OP_ALLREDUCE || op == OP_GATHER || op == OP_ALLGATHER || op == OP_GATHERV) {
    long src = sb;
    long nb = (op == OP_GATHERV) ? k.carg[8] : bytes;
    if (sb == -1) {  // MPI_IN_PLACE
      src = rb;
      if (op == OP_GATHER || op == OP_ALLGATHER) src = rb + (long)r * bytes;
    }
    if (isBad(r, src, nb)) { viol("args: rank %d %s send buffer (%ld bytes) is not accessible memory", r, opName[op], nb); return; }
    c.contrib[slot] = rd(r, src, nb);
  }
  if (op == OP_BCAST && isRoot) {
    if (isBad(r, sb, bytes)) { viol("args: rank %d Bcast buffer is not accessible memory", r); return; }
    c.contrib[0] = rd(r, sb, bytes);
  }
  bool rooted = op == OP_REDUCE || op == OP_GATHER || op == OP_GATHERV;
  if (rooted && !isRoot && rndn(2)) { ready(r); }  // may return before the root has arrived
  else k.st = BLOCKED;
  if (op == OP_BCAST && isRoot && rndn(2)) ready(r);
  if (stopAll) return;
  if (op == OP_BCAST) {
    // non roots only need the root
    bool rootIn = std::find(c.arrived.begin(), c.arrived.end(), comm == MPI_COMM_SELF ? r : root) != c.arrived.end();
    if (rootIn)
      for (int q : c.arrived)
        if (R[q].st == BLOCKED && R[q].cur == OP_BCAST) {
          if (q != root && comm != MPI_COMM_SELF) {
            if (isBad(q, R[q].carg[0], bytes)) { viol("args: rank %d Bcast buffer is not accessible memory", q); return; }
            wr(q, R[q].carg[0], c.contrib[0]);
          }
          ready(q);
        }
    return;
  }
  if (c.nArr < n) return;
  // complete
  if (op == OP_REDUCE || op == OP_ALLREDUCE) {
    std::vector<char> res = reduceAll(c, n);
    for (int q : c.arrived) {
      if (op == OP_REDUCE && !(comm == MPI_COMM_SELF || q == root)) continue;
      if (isBad(q, R[q].carg[1], bytes)) { viol("args: rank %d %s receive buffer is not accessible memory", q, opName[op]); return; }
      wr(q, R[q].carg[1], res);
    }
  }
  if (op == OP_GATHER || op == OP_ALLGATHER) {
    std::vector<char> all;
    for (auto &v : c.contrib) all.insert(all.end(), v.begin(), v.end());
    for (int q : c.arrived) {
      if (op == OP_GATHER && !(comm == MPI_COMM_SELF || q == root)) continue;
      long rbytes = R[q].carg[8];
      if (rbytes != bytes) { viol("args: rank %d %s receives %ld bytes per process, %ld are sent", q, opName[op], rbytes, bytes); return; }
      if (isBad(q, R[q].carg[1], (long)all.size())) { viol("args: rank %d %s receive buffer is too small", q, opName[op]); return; }
      wr(q, R[q].carg[1], all);
    }
  }
  if (op == OP_GATHERV) {
    int q = comm == MPI_COMM_SELF ? r : root;
    std::vector<char> cn = rd(q, R[q].carg[9], 4L * n), ds = rd(q, R[q].carg[10], 4L * n);
    int es = dtSize((int)R[q].carg[11]);
    for (int i = 0; i < n && !stopAll; ++i) {
      long nb = (long)((int *)cn.data())[i] * es, d = (long)((int *)ds.data())[i] * es;
      if (nb != (long)c.contrib[i].size()) { viol("args: Gatherv count mismatch for rank %d", i); return; }
      if (isBad(q, R[q].carg[1] + d, nb)) { viol("args: Gatherv receive buffer is too small"); return; }
      wr(q, R[q].carg[1] + d, c.contrib[i]);
    }
  }
  long ret = 0;
  if (op == OP_COMMDUP) { ret = nextComm++; comms.insert((int)ret); }
  if (op == OP_WINCREATE) {
    Win w;
    w.comm = comm;
    w.r.resize(N);
    for (int q : c.arrived) {
      w.r[q].base = R[q].carg[0];
      w.r[q].size = R[q].carg[1];
      w.r[q].du = (int)R[q].carg[2];
    }
    W.push_back(w);
    ret = (long)W.size();
    counts["windows"]++;
  }
  for (int q : c.arrived)
    if (R[q].st == BLOCKED && R[q].cur == op) ready(q, ret);
  C.erase(comm == MPI_COMM_SELF ? std::make_pair(1000000 + r, idx) : std::make_pair(comm, idx));
}

// ----------------------------------------------------------- point to point
bool matchMsg(int src, int tag, const Msg &m) {
  return (src == MPI_ANY_SOURCE || src == m.src) && (tag == MPI_ANY_TAG || tag == m.tag);
}
void finishRecv(int r, Req &q, Msg &m) {
  if ((long)m.data.size() > q.bytes) { viol("p2p: rank %d receives %zu bytes into a buffer of %ld", r, m.data.size(), q.bytes); return; }
  if (isBad(r, q.addr, (long)m.data.size())) { viol("p2p: rank %d receive buffer is not accessible memory", r); return; }
  q.done = true;
  q.got = (long)m.data.size();
  q.gotSrc = m.src;
  q.gotTag = m.tag;
  wr(r, q.addr, m.data);
  if (m.sender >= 0) ready(m.sender);
}
void tryMatch(int comm, int dest) {
  auto &mb = mail[{comm, dest}];
  auto &ps = posted[{comm, dest}];
  for (size_t i = 0; i < ps.size();) {
    Req &q = R[dest].reqs[ps[i]];
    bool hit = false;
    for (size_t j = 0; j < mb.size(); ++j)
      if (matchMsg(q.src, q.tag, mb[j])) {
        Msg m = mb[j];
        mb.erase(mb.begin() + (long)j);
        finishRecv(dest, q, m);
        ps.erase(ps.begin() + (long)i);
        hit = true;
        break;
      }
    if (stopAll) return;
    if (!hit) ++i;
  }
  // a rank waiting for one of its requests
  Rank &k = R[dest];
  if (k.st == BLOCKED && (k.cur == OP_WAIT || k.cur == OP_RECV)) {
    Req &q = k.reqs[k.carg[11]];
    if (q.done) {
      slots[dest].ret2 = (long)q.gotSrc << 32 | (unsigned)q.gotTag;
      slots[dest].ret3 = q.got;
      ready(dest);
    }
  }
}

bool liveWin(int r, long w, const char *what) {
  if (w < 1 || w > (long)W.size() || W[w - 1].r[r].freed) {
    viol("rma: rank %d calls %s on a window that does not exist (any more)", r, what);
    return false;
  }
  return true;
}

void handle(int r) {
  Slot &s = slots[r];
  Rank &k = R[r];
  k.cur = s.op;
  for (int i = 0; i < NARG; ++i) k.carg[i] = s.arg[i];
  long *a = k.carg;
  counts[opName[s.op]]++;
  ++clockTick;
  mix(traceHash, (uint64_t)r * 131 + s.op);
  if (trace) {
    fprintf(trace, "rank %d %s", r, opName[s.op]);
    if (s.op == OP_GET || s.op == OP_PUT) fprintf(trace, " win %ld target %ld disp %ld bytes %ld", a[4], a[2], a[3], a[1]);
    if (s.op == OP_FENCE) fprintf(trace, " win %ld assert %ld", a[0], a[1]);
    if (s.op == OP_WINFREE) fprintf(trace, " win %ld", a[0]);
    fprintf(trace, "\n");
  }
  if (s.op == OP_EXIT) {
    k.st = DONE;
    if (k.inited && !k.finalized) viol("exit: rank %d exits without calling MPI_Finalize", r);
    int status = 0;
    double t0 = now();
    while (waitpid(k.pid, &status, WNOHANG) == 0) {
      if (now() - t0 > 20) { viol("hang: rank %d does not exit", r); return; }
      usleep(200);
    }
    reapDeath(r, status);
    return;
  }
  if (s.op != OP_INIT && s.op != OP_WTIME && s.op != OP_MISC && s.op != OP_ABORT && s.op != OP_VIOL && (!k.inited || k.finalized)) {
    viol("order: rank %d calls %s %s", r, opName[s.op], k.finalized ? "after Finalize" : "before Init");
    return;
  }
  switch (s.op) {
  case OP_INIT:
    if (k.inited) viol("order: rank %d initialises MPI twice", r);
    k.inited = true;
    ready(r);
    return;
  case OP_FINALIZE: {
    for (size_t i = 0; i < W.size(); ++i)
      if (!W[i].r[r].freed) { viol("leak: rank %d finalizes with window %zu (of %zu) not freed", r, i, W.size()); break; }
    if (!k.mem.empty()) viol("leak: rank %d finalizes with %zu MPI_Alloc_mem blocks not freed", r, k.mem.size());
    for (auto &q : k.reqs) if (!q.done) { viol("leak: rank %d finalizes with a pending request", r); break; }
    if (!mail[{1, r}].empty()) viol("leak: rank %d finalizes with %zu unreceived messages", r, mail[{1, r}].size());
    if (stopAll) return;
    enterColl(r, OP_FINALIZE, MPI_COMM_WORLD, 0, 0, 0, 0);
    k.finalized = true;
    return;
  }
  case OP_ABORT:
    viol("abort: rank %d calls MPI_Abort(%ld)", r, a[0]);
    return;
  case OP_VIOL:
    viol("args: rank %d %s", r, (const char *)(bulk + (size_t)r * bulkSize));
    return;
  case OP_WTIME: ready(r, clockTick); return;
  case OP_MISC: ready(r); return;
  case OP_ALLOC:
    k.mem[a[0]] = a[1];
    ready(r);
    return;
  case OP_FREEMEM: {
    auto it = k.mem.find(a[0]);
    if (it == k.mem.end()) { viol("free: rank %d frees memory that MPI_Alloc_mem did not return or that was freed before", r); return; }
    for (size_t i = 0; i < W.size(); ++i) {
      WinRank &x = W[i].r[r];
      if (!x.freed && x.size > 0 && x.base < it->first + it->second && it->first < x.base + x.size) {
        viol("rma: rank %d frees memory exposed by window %zu before the window", r, i);
        return;
      }
      for (auto &g : W[i].pops)
        if (g.origin == r && g.addr < it->first + it->second && it->first < g.addr + g.bytes) {
          viol("rma: rank %d frees the buffer of a pending access", r);
          return;
        }
      for (auto &g : W[i].ops)
        if (g.origin == r && g.addr < it->first + it->second && it->first < g.addr + g.bytes) {
          viol("rma: rank %d frees the buffer of a pending access", r);
          return;
        }
    }
    k.mem.erase(it);
    ready(r);
    return;
  }
  case OP_WINCREATE:
    if (a[1] < 0 || a[2] <= 0) { viol("args: rank %d creates a window of %ld bytes, unit %ld", r, a[1], a[2]); return; }
    if (a[1] > 0 && isBad(r, a[0], a[1])) { viol("rma: rank %d exposes %ld bytes that are not (all) allocated", r, a[1]); return; }
    if (stopAll) return;
    enterColl(r, OP_WINCREATE, (int)a[3], 0, 0, 0, 0);
    return;
  case OP_WINFREE: {
    if (!liveWin(r, a[0], "Win_free")) return;
    Win &w = W[a[0] - 1];
    for (auto &g : w.ops)
      if (g.origin == r || g.target == r) { viol("rma: rank %d frees window %ld with pending accesses", r, a[0] - 1); return; }
    for (auto &l : w.locks)
      if (l.first.first == r) { viol("rma: rank %d frees window %ld while it holds a lock", r, a[0] - 1); return; }
    w.r[r].freed = true;
    enterColl(r, OP_WINFREE, w.comm, 0, (int)a[0], 0, 0);
    return;
  }
  case OP_FENCE: {
    if (!liveWin(r, a[0], "Win_fence")) return;
    int wi = (int)a[0] - 1, as = (int)a[1];
    Win &w = W[wi];
    WinRank &x = w.r[r];
    int k0 = x.fences;
    if ((int)w.asserts.size() <= k0) w.asserts.push_back(std::vector<int>(N, -1));
    for (int q = 0; q < N; ++q)
      if (w.asserts[k0][q] >= 0) {
        int d = (w.asserts[k0][q] ^ as) & (MPI_MODE_NOPRECEDE | MPI_MODE_NOSUCCEED);
        if (d) { viol("rma: ranks %d and %d give different assertions to the same fence", q, r); return; }
      }
    w.asserts[k0][r] = as;
    bool mine = false;
    for (auto &g : w.ops) mine |= (g.origin == r && g.epoch <= k0 && g.epoch == x.fences);
    if ((as & MPI_MODE_NOPRECEDE) && mine) { viol("rma: rank %d asserts that nothing precedes the fence, but it accessed window %d", r, wi); return; }
    checkStable(wi, r);
    if (stopAll) return;
    std::vector<char> now = rd(r, x.base, x.size);
    if (stopAll) return;
    if ((as & MPI_MODE_NOSTORE) && x.synced) {
      bool puts = false;
      for (auto &g : w.ops) puts |= (g.isPut && g.target == r);
      if (!puts && now != x.atSync) { viol("rma: rank %d asserts that it has not stored into window %d since the last fence, but it has", r, wi); return; }
    }
    x.atSync.swap(now);
    x.synced = true;
    x.fences++;
    x.lastAssert = as;
    x.open = false;
    if (!(as & MPI_MODE_NOSUCCEED)) openEpoch(wi, r);
    if (stopAll) return;
    bool block = !(as & MPI_MODE_NOPRECEDE);
    if (!block && k0 > 0 && !(w.asserts[k0 - 1][r] & MPI_MODE_NOSUCCEED)) {
      // epoch was open: others may still access us; wait only if they did
    }
    if (block) {
      k.st = BLOCKED;
      x.inFence = true;
      bool all = true;
      for (int q = 0; q < N; ++q) all &= (w.r[q].fences >= x.fences);
      if (all) {
        fenceComplete(wi, x.fences);
        if (stopAll) return;
        for (int q = 0; q < N; ++q)
          if (w.r[q].inFence) { w.r[q].inFence = false; ready(q); }
      }
    } else
      ready(r);
    return;
  }
  case OP_LOCK: {
    if (!liveWin(r, a[0], "Win_lock")) return;
    Win &w = W[a[0] - 1];
    int target = (int)a[1];
    if (target < -1 || target >= N) { viol("args: rank %d locks rank %d of %d", r, target, N); return; }
    for (auto &l : w.locks)
      if (l.first.first == r && (target < 0 || l.first.second == target)) { viol("rma: rank %d locks window %ld at rank %d twice", r, a[0] - 1, l.first.second); return; }
    if (takeLock(w, r, target, (int)a[2])) ready(r);
    else { k.st = BLOCKED; w.lockWait.push_back({r, target, (int)a[2]}); }
    counts["epochs"]++;
    return;
  }
  case OP_UNLOCK:
  case OP_FLUSH: {
    if (!liveWin(r, a[0], opName[s.op])) return;
    Win &w = W[a[0] - 1];
    int target = (int)a[1];
    bool held = false;
    for (auto &l : w.locks) held |= l.first.first == r && (target < 0 || l.first.second == target);
    if (!held) { viol("rma: rank %d calls %s without holding the lock", r, opName[s.op]); return; }
    finishPassive((int)a[0] - 1, r, target);
    if (stopAll) return;
    ready(r);
    if (s.op == OP_FLUSH) return;
    for (auto it = w.locks.begin(); it != w.locks.end();)
      if (it->first.first == r && (target < 0 || it->first.second == target)) it = w.locks.erase(it);
      else ++it;
    for (size_t i = 0; i < w.lockWait.size();) {
      auto q = w.lockWait[i];
      if (takeLock(w, q[0], q[1], q[2])) { w.lockWait.erase(w.lockWait.begin() + (long)i); ready(q[0]); }
      else ++i;
    }
    return;
  }
  case OP_GET:
  case OP_PUT: {
    if (!liveWin(r, a[4], opName[s.op])) return;
    int wi = (int)a[4] - 1;
    Win &w = W[wi];
    WinRank &x = w.r[r];
    int target = (int)a[2];
    long bytes = a[1];
    if (bytes != a[5]) { viol("args: rank %d: origin and target of %s differ in size", r, opName[s.op]); return; }
    bool passive = w.locks.count({r, target}) > 0;
    if (!x.open && !passive) { viol("rma: rank %d calls %s outside an access epoch", r, opName[s.op]); return; }
    if (target < 0 || target >= N) { viol("args: rank %d accesses rank %d of %d", r, target, N); return; }
    if (s.op == OP_PUT && (x.lastAssert & MPI_MODE_NOPUT)) {
      // NOPUT only promises that this process's window is not the target of a put
    }
    WinRank &t = w.r[target];
    long off = a[3] * t.du;
    if (t.freed) { viol("rma: rank %d accesses a window rank %d has freed", r, target); return; }
    if (off < 0 || bytes < 0 || off + bytes > t.size) { viol("rma: rank %d reads bytes [%ld,%ld) of the %ld exposed by rank %d", r, off, off + bytes, t.size, target); return; }
    if (isBad(r, a[0], bytes)) { viol("rma: rank %d: the receive buffer cannot hold %ld bytes", r, bytes); return; }
    for (auto &p : w.ops)
      if (p.origin == r && a[0] < p.addr + p.bytes && p.addr < a[0] + bytes) { viol("rma: rank %d uses the same buffer in two pending accesses", r); return; }
    for (auto &p : w.pops)
      if (p.origin == r && a[0] < p.addr + p.bytes && p.addr < a[0] + bytes) { viol("rma: rank %d uses the same buffer in two pending accesses", r); return; }
    if (bytes) counts["accessed_bytes"] += bytes;
    if (bytes && target != r) counts["remote_gets"]++;
    PGet g{r, target, a[0], bytes, off, x.fences, false, {}, s.op == OP_PUT, {}};
    if (!g.isPut && bytes) {
      std::vector<char> junk((size_t)bytes, (char)0xff);  // NaN until it arrives
      wr(r, g.addr, junk);
      svc(r, CMD_POISON, g.addr, bytes);
    }
    if (stopAll) return;
    if (passive) {
      if (!g.isPut) g.snap = rd(target, t.base + off, bytes);
      if (stopAll) return;
      w.pops.push_back(g);
      if (xfer == X_EAGER || (xfer == X_RANDOM && rndn(3) == 0)) deliver(wi, w.pops.back());
      ready(r);
      return;
    }
    if (!g.isPut && t.fences == g.epoch + 1 && !t.prevOpen.empty()) {
      // the target already waits for the end of this epoch
      counts["stability_checks"]++;
      if (memcmp(t.prevClose.data() + off, t.prevOpen.data() + off, bytes) != 0) {
        viol("rma: rank %d modified exposed memory of window %d while rank %d reads it", target, wi, r);
        return;
      }
    }
    w.ops.push_back(g);
    PGet &gg = w.ops.back();
    bool nowX = xfer == X_EAGER || (xfer == X_RANDOM && rndn(3) == 0);
    if (nowX && targetReady(w, gg)) deliver(wi, gg);
    ready(r);
    return;
  }
  case OP_BARRIER: enterColl(r, s.op, (int)a[7], 0, 0, 0, 0); return;
  case OP_COMMDUP: enterColl(r, s.op, (int)a[7], 0, 0, 0, 0); return;
  case OP_COMMFREE: enterColl(r, s.op, (int)a[7], 0, 0, 0, 0); return;
  case OP_BCAST: case OP_REDUCE: case OP_ALLREDUCE: case OP_GATHER: case OP_ALLGATHER: case OP_GATHERV:
    if (!comms.count((int)a[7])) { viol("args: rank %d: invalid communicator", r); return; }
    enterColl(r, s.op, (int)a[7], (int)a[5], s.op == OP_GATHERV ? 0 : (int)a[2], (int)a[3], (int)a[4]);
    return;
  case OP_SEND: case OP_ISEND: {
    int dest = (int)a[2];
    if (dest < 0 || dest >= N) { viol("args: rank %d sends to rank %d of %d", r, dest, N); return; }
    if (isBad(r, a[0], a[1])) { viol("p2p: rank %d send buffer is not accessible memory", r); return; }
    Msg m{r, (int)a[3], rd(r, a[0], a[1]), -1};
    if (s.op == OP_SEND && rndn(2)) { m.sender = r; k.st = BLOCKED; }
    else ready(r, -1);
    mail[{(int)a[4], dest}].push_back(m);
    tryMatch((int)a[4], dest);
    return;
  }
  case OP_RECV: case OP_IRECV: {
    Req q;
    q.recv = true;
    q.addr = a[0]; q.bytes = a[1]; q.src = (int)a[2]; q.tag = (int)a[3]; q.comm = (int)a[4];
    k.reqs.push_back(q);
    int id = (int)k.reqs.size() - 1;
    posted[{q.comm, r}].push_back(id);
    if (s.op == OP_RECV) { k.st = BLOCKED; k.carg[11] = id; }
    else ready(r, id);
    tryMatch(q.comm, r);
    return;
  }
  case OP_WAIT: {
    long id = a[0];
    if (id < 0 || id >= (long)k.reqs.size()) { viol("args: rank %d waits for an unknown request", r); return; }
    k.carg[11] = id;
    k.st = BLOCKED;
    tryMatch(k.reqs[id].comm, r);
    return;
  }
  }
  viol("internal: operation %d", s.op);
}

void onChld(int) { gotChld = 1; }

std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    if ((unsigned char)c < 32) { o += ' '; continue; }
    o += c;
  }
  return o;
}

} // namespace

int main(int argc, char **argv) {
  auto env = [](const char *n, const char *d) { const char *v = getenv(n); return std::string(v ? v : d); };
  N = atoi(env("SIMMPI_N", "1").c_str());
  rng_s = strtoull(env("SIMMPI_SEED", "1").c_str(), 0, 10) * 2654435761ull + 12345;
  std::string x = env("SIMMPI_XFER", "random");
  xfer = x == "eager" ? X_EAGER : x == "lazy" ? X_LAZY : X_RANDOM;
  hangSec = atof(env("SIMMPI_HANG", "60").c_str());
  std::string out = env("SIMMPI_OUT", "."), summary = env("SIMMPI_SUMMARY", "");
  bulkSize = (size_t)atol(env("SIMMPI_BULK", "16777216").c_str());
  std::string tf = env("SIMMPI_TRACE", "");
  if (!tf.empty()) trace = fopen(tf.c_str(), "w");

  size_t tot = sizeof(Shared) + sizeof(Slot) * N + 4096 + bulkSize * N;
  char *m = (char *)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); return 2; }
  sh = (Shared *)m;
  slots = (Slot *)(m + 1024);
  bulk = m + ((1024 + sizeof(Slot) * N + 4095) / 4096) * 4096;
  sem_init(&sh->coord, 1, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onChld;
  sigaction(SIGCHLD, &sa, nullptr);
  R.resize(N);
  for (int r = 0; r < N; ++r) sem_init(&slots[r].go, 1, 0);
  fflush(nullptr);
  for (int r = 0; r < N; ++r) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); for (int q = 0; q < r; ++q) kill(R[q].pid, SIGKILL); return 2; }
    if (p == 0) {
      me = r;
      signal(SIGCHLD, SIG_DFL);
      if (trace) { fclose(trace); trace = nullptr; }
      std::string o = out + "/rank." + std::to_string(r);
      int f1 = open((o + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      int f2 = open((o + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (f1 < 0 || f2 < 0) _exit(2);
      dup2(f1, 1);
      dup2(f2, 2);
      close(f1);
      close(f2);
      waitSem(&slots[r].go);
      atexit(exitHook);
      int rc = prog_main(argc, argv);
      exit(rc);
    }
    R[r].pid = p;
  }
  // scheduling strategy
  int strat = (int)(rnd() % 4);
  std::vector<long> prio(N);
  for (auto &p : prio) p = rndn(1000000);
  int last = -1;
  while (!stopAll) {
    std::vector<int> rs;
    int live = 0;
    for (int r = 0; r < N; ++r) {
      if (R[r].st == READY) rs.push_back(r);
      if (R[r].st != DONE) live++;
    }
    if (!live) break;
    if (rs.empty()) {
      std::string who;
      for (int r = 0; r < N && r < 12; ++r) who += " " + std::to_string(r) + ":" + (R[r].st == DONE ? "finished" : opName[R[r].cur]);
      viol("deadlock: no process can continue;%s", who.c_str());
      break;
    }
    if (xfer == X_RANDOM)
      for (size_t i = 0; i < W.size() && !stopAll; ++i) {
        for (auto &g : W[i].pops)
          if (!g.delivered && rndn(5) == 0) {
            deliver((int)i, g);
            if (stopAll) break;
          }
        for (auto &g : W[i].ops)
          if (!g.delivered && rndn(5) == 0 && targetReady(W[i], g)) {
            deliver((int)i, g);
            if (stopAll) break;
          }
      }
    if (stopAll) break;
    int pick;
    if (strat == 0) pick = rs[rndn((long)rs.size())];
    else if (strat == 1) {  // priorities with occasional changes
      pick = rs[0];
      for (int r : rs) if (prio[r] > prio[pick]) pick = r;
      if (rndn(8) == 0) prio[pick] = rndn(1000000);
    } else if (strat == 2) {  // run the same rank as long as possible
      pick = std::find(rs.begin(), rs.end(), last) != rs.end() ? last : rs[rndn((long)rs.size())];
    } else {  // one rank is always last
      int lag = (int)(prio[0] % N);
      pick = rs[rndn((long)rs.size())];
      if (pick == lag && rs.size() > 1) while (pick == lag) pick = rs[rndn((long)rs.size())];
    }
    last = pick;
    nGrants++;
    mix(schedHash, (uint64_t)pick + 1);
    Slot &s = slots[pick];
    s.cmd = CMD_RETURN;
    s.ret = R[pick].ret;
    R[pick].st = BLOCKED;
    R[pick].cur = OP_NONE;
    post(&s.go);
    if (!waitMsg(pick)) { if (R[pick].exited && !stopAll) continue; break; }
    handle(pick);
  }
  for (int r = 0; r < N; ++r)
    if (!R[r].exited) {
      kill(R[r].pid, SIGKILL);
      int st;
      waitpid(R[r].pid, &st, 0);
    }
  if (!summary.empty()) {
    FILE *f = fopen(summary.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"violations\": [");
    for (size_t i = 0; i < viols.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(viols[i]).c_str());
    fprintf(f, "], \"ranks\": %d, \"grants\": %ld, \"sched\": \"%016llx\", \"trace\": \"%016llx\", \"strategy\": %d, \"counts\": {", N, nGrants,
            (unsigned long long)schedHash, (unsigned long long)traceHash, strat);
    bool first = true;
    for (auto &c : counts) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", c.first.c_str(), c.second); first = false; }
    fprintf(f, "}}\n");
    fclose(f);
  }
  if (trace) fclose(trace);
  for (auto &v : viols) fprintf(stderr, "simmpi: %s\n", v.c_str());
  fflush(nullptr);
  _exit(viols.empty() ? 0 : 3);
}

// ------------------------------------------------------------------- the API
static int initFlag = 0, finFlag = 0;
#define L(x) ((long)(x))
extern "C" {
int MPI_Init(int *, char ***) { call(OP_INIT, {}); initFlag = 1; return 0; }
int MPI_Init_thread(int *, char ***, int req, int *prov) { call(OP_INIT, {}); initFlag = 1; if (prov) *prov = req; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int *f) { *f = initFlag; return 0; }
int MPI_Finalized(int *f) { *f = finFlag; return 0; }
int MPI_Finalize(void) { call(OP_FINALIZE, {}); finFlag = 1; return 0; }
int MPI_Abort(MPI_Comm, int c) { call(OP_ABORT, {c}); _exit(c); }
// SIMMPI_CLOCK: clocks of the ranks differ in offset and speed, and their
// readings are recorded
double MPI_Wtime(void) {
  long t = call(OP_WTIME, {});
  const char *d = getenv("SIMMPI_CLOCK");
  if (!d) return 1e-6 * (double)t;
  double v = 16.0 * ((me * 7) % 13) + 1e-3 * (double)t * (1 + (me * 5) % 7);
  FILE *f = fopen((std::string(d) + "/wtime." + std::to_string(me)).c_str(), "a");
  if (f) { fprintf(f, "%.17g\n", v); fclose(f); }
  return v;
}
double MPI_Wtick(void) { return 1e-6; }
int MPI_Comm_rank(MPI_Comm c, int *r) { call(OP_MISC, {}); *r = c == MPI_COMM_SELF ? 0 : me; return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { call(OP_MISC, {}); *s = commSize(c); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  if (c == MPI_COMM_SELF) { *o = c; return 0; }
  *o = (int)call(OP_COMMDUP, {0, 0, 0, 0, 0, 0, 0, c});
  return 0;
}
int MPI_Comm_free(MPI_Comm *c) { if (*c != MPI_COMM_SELF) call(OP_COMMFREE, {0, 0, 0, 0, 0, 0, 0, *c}); *c = 0; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "simmpi"); *l = 6; return 0; }
int MPI_Type_size(MPI_Datatype d, int *s) { *s = dtSize(d); return 0; }
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p) {
  // fill with NaN so that reading what was never written is visible
  size_t sz = n > 0 ? (size_t)n : 0;
  char *m = (char *)malloc(sz ? sz : 1);
  if (!m) abort();
#ifndef SIMMPI_NOFILL
  memset(m, 0xff, sz);
#endif
  *(void **)p = m;
  call(OP_ALLOC, {L(m), n});
  return 0;
}
int MPI_Free_mem(void *p) { call(OP_FREEMEM, {L(p)}); free(p); return 0; }
int MPI_Win_create(void *b, MPI_Aint n, int du, MPI_Info, MPI_Comm c, MPI_Win *w) {
  *w = (int)call(OP_WINCREATE, {L(b), n, du, c});
  return 0;
}
int MPI_Win_free(MPI_Win *w) { call(OP_WINFREE, {*w}); *w = MPI_WIN_NULL; return 0; }
int MPI_Win_fence(int as, MPI_Win w) { call(OP_FENCE, {w, as}); return 0; }
int MPI_Win_lock(int type, int rk, int, MPI_Win w) { call(OP_LOCK, {w, rk, type}); return 0; }
int MPI_Win_unlock(int rk, MPI_Win w) { call(OP_UNLOCK, {w, rk}); return 0; }
int MPI_Win_lock_all(int, MPI_Win w) { call(OP_LOCK, {w, -1, MPI_LOCK_SHARED}); return 0; }
int MPI_Win_unlock_all(MPI_Win w) { call(OP_UNLOCK, {w, -1}); return 0; }
int MPI_Win_flush(int rk, MPI_Win w) { call(OP_FLUSH, {w, rk}); return 0; }
int MPI_Win_flush_local(int rk, MPI_Win w) { call(OP_FLUSH, {w, rk}); return 0; }
int MPI_Win_flush_all(MPI_Win w) { call(OP_FLUSH, {w, -1}); return 0; }
int MPI_Win_flush_local_all(MPI_Win w) { call(OP_FLUSH, {w, -1}); return 0; }
int MPI_Win_sync(MPI_Win w) { (void)w; call(OP_MISC, {}); return 0; }
int MPI_Get(void *o, int n, MPI_Datatype t, int rk, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) {
  call(OP_GET, {L(o), (long)n * dtSize(t), rk, d, w, (long)tn * dtSize(tt)});
  return 0;
}
int MPI_Put(const void *o, int n, MPI_Datatype t, int rk, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) {
  call(OP_PUT, {L(o), (long)n * dtSize(t), rk, d, w, (long)tn * dtSize(tt)});
  return 0;
}
int MPI_Barrier(MPI_Comm c) { call(OP_BARRIER, {0, 0, 0, 0, 0, 0, 0, c}); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { call(OP_BCAST, {L(b), 0, n, t, 0, root, 0, c}); return 0; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) {
  call(OP_REDUCE, {L(s), L(r), n, t, o, root, 0, c});
  return 0;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  call(OP_ALLREDUCE, {L(s), L(r), n, t, o, 0, 0, c});
  return 0;
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  call(OP_GATHER, {L(s), L(r), n, t, 0, root, 0, c, (long)rn * dtSize(rt)});
  return 0;
}
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rn, const int *d, MPI_Datatype rt, int root, MPI_Comm c) {
  call(OP_GATHERV, {L(s), L(r), 0, 0, 0, root, 0, c, (long)n * dtSize(t), L(rn), L(d), rt});
  return 0;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
  call(OP_ALLGATHER, {L(s), L(r), n, t, 0, 0, 0, c, (long)rn * dtSize(rt)});
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  if (d == MPI_PROC_NULL) return 0;
  call(OP_SEND, {L(b), (long)n * dtSize(t), d, tag, c});
  return 0;
}
static void setStatus(MPI_Status *st) {
  if (!st) return;
  st->MPI_SOURCE = (int)(slots[me].ret2 >> 32);
  st->MPI_TAG = (int)(slots[me].ret2 & 0xffffffff);
  st->MPI_ERROR = 0;
  st->_bytes = slots[me].ret3;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
  if (s == MPI_PROC_NULL) return 0;
  call(OP_RECV, {L(b), (long)n * dtSize(t), s, tag, c});
  setStatus(st);
  return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *rq) {
  if (d != MPI_PROC_NULL) call(OP_ISEND, {L(b), (long)n * dtSize(t), d, tag, c});
  *rq = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *rq) {
  if (s == MPI_PROC_NULL) { *rq = MPI_REQUEST_NULL; return 0; }
  *rq = 1 + (int)call(OP_IRECV, {L(b), (long)n * dtSize(t), s, tag, c});
  return 0;
}
int MPI_Wait(MPI_Request *rq, MPI_Status *st) {
  if (*rq == MPI_REQUEST_NULL) return 0;
  call(OP_WAIT, {*rq - 1});
  setStatus(st);
  *rq = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall(int n, MPI_Request *rq, MPI_Status *st) {
  for (int i = 0; i < n; ++i) MPI_Wait(rq + i, st ? st + i : nullptr);
  return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  MPI_Request q;
  MPI_Irecv(rb, rn, rt, s, rtag, c, &q);
  MPI_Request q2;
  MPI_Isend(sb, sn, stt, d, stag, c, &q2);
  return MPI_Wait(&q, st);
}
struct AllocHolder { };
int MPI_Win_allocate(MPI_Aint n, int du, MPI_Info, MPI_Comm c, void *p, MPI_Win *w) {
  // the memory belongs to the window and is only released at process exit
  size_t sz = n > 0 ? (size_t)n : 0;
  char *m = (char *)malloc(sz ? sz : 1);
  *(void **)p = m;
  *w = (int)call(OP_WINCREATE, {L(m), n, du, c});
  return 0;
}
}
