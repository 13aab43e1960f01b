/* A simulated accelerator with a memory of its own, put between the code the
 * compiler generates for OpenMP target / OpenACC constructs and libgomp (linked
 * with -Wl,--wrap). Offloaded functions run on the host, but on device copies
 * of what is mapped, with the data motion the directives ask for and no other:
 *  - fresh device memory holds NaN / -1, host memory is untouched until a
 *    construct copies back;
 *  - pointers whose target is not mapped point into a page nobody may touch;
 *  - the teams of a region run at the same time, each on a thread of its own
 *    (VF_TEAMS many), with seeded delays (VF_SEED, VF_DELAY).
 * A mapping this file does not know ends the process with status 77: no answer. */
// wrap: GOMP_target_ext GOMP_target_data_ext GOMP_target_end_data GOMP_target_update_ext GOMP_target_enter_exit_data
// wrap: GOMP_teams4 omp_get_num_teams omp_get_team_num omp_is_initial_device omp_is_initial_device_
// wrap: GOACC_parallel_keyed GOACC_data_start GOACC_data_end GOACC_update GOACC_enter_data GOACC_exit_data GOACC_wait
// wrap: acc_on_device acc_on_device_h_ GOACC_declare
#define _GNU_SOURCE
#include <pthread.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>

enum {
  K_ALLOC = 0, K_TO = 1, K_FROM = 2, K_TOFROM = 3, K_POINTER = 4, K_TO_PSET = 5, K_FORCE_PRESENT = 6, K_DELETE = 7,
  K_IF_PRESENT = 11, K_FIRSTPRIVATE = 12, K_FIRSTPRIVATE_INT = 13, K_USE_DEVICE_PTR = 14, K_ZERO_LEN = 15,
  K_ALWAYS_TO = 17, K_ALWAYS_FROM = 18, K_ALWAYS_TOFROM = 19, K_RELEASE = 23,
  K_STRUCT = 28, K_ALWAYS_POINTER = 29, K_ATTACH = 80, K_DETACH = 81,
  K_F_ALLOC = 128, K_F_TO = 129, K_F_FROM = 130, K_F_TOFROM = 131
};

typedef struct Map { char *h, *d; size_t n; int ref; struct Map *next; } Map;
static Map *maps;
static char *guard;
static long long nreg, ndata, nto, nfrom, nupd, nteam, bto, bfrom;
static int logging = -1;

static void stats(void) {
  const char *f = getenv("VF_ACCLOG");
  FILE *o;
  if (!f || !(o = fopen(f, "a"))) return;
  fprintf(o, "regions %lld datascopes %lld copyin %lld copyout %lld updates %lld teams %lld bytesin %lld bytesout %lld left %d\n", nreg,
          ndata, nto, nfrom, nupd, nteam, bto, bfrom, maps != 0);
  fclose(o);
}

static void init(void) {
  if (logging >= 0) return;
  logging = getenv("VF_ACCTRACE") != 0;
  guard = mmap(0, 1 << 20, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  atexit(stats);
}

static void unknown(const char *what, int k) {
  fprintf(stderr, "accdev: unsupported %s %d\n", what, k);
  fflush(0);
  _exit(77);
}

static void broken(const char *what) {
  fprintf(stderr, "accdev: ERROR: %s\n", what);
  fflush(0);
  _exit(78);
}

static Map *find(const void *p, size_t n) {
  const char *h = p;
  if (!n) n = 1;
  for (Map *m = maps; m; m = m->next)
    if (h < m->h + m->n && m->h < h + n) {
      if (h < m->h || h + n > m->h + m->n) broken("a mapping extends one that is present");
      return m;
    }
  return 0;
}

static Map *enter(void *p, size_t n, bool copy, bool always) {
  Map *m = find(p, n);
  if (!m) {
    m = calloc(1, sizeof *m);
    m->h = p;
    m->n = n ? n : 1;
    m->d = aligned_alloc(64, (m->n + 63) / 64 * 64);
    if (m->n % 64) { free(m->d); m->d = malloc(m->n); }
    memset(m->d, 0xff, m->n);
    m->next = maps;
    maps = m;
    always = copy;
  }
  m->ref++;
  if (copy && always) { memcpy(m->d + ((char *)p - m->h), p, n); nto++; bto += n; }
  return m;
}

static void leave(Map *m, void *p, size_t n, bool copy, bool always) {
  m->ref--;
  if (copy && (always || m->ref <= 0)) { memcpy(p, m->d + ((char *)p - m->h), n); nfrom++; bfrom += n; }
  if (m->ref <= 0) {
    for (Map **q = &maps; *q; q = &(*q)->next)
      if (*q == m) { *q = m->next; break; }
    memset(m->d, 0xff, m->n);
    free(m->d);
    free(m);
  }
}

/* A pointer handed over by value that points to mapped data: some compilers take
 * the device address of those data, others need a clause; the first is assumed. */
static bool translate(void *slot) {
  char *to;
  Map *m;
  memcpy(&to, slot, sizeof to);
  if ((uintptr_t)to < 4096) return false;
  for (m = maps; m; m = m->next)
    if (to >= m->h && to < m->h + m->n && m->n >= 8) break;
  if (!m) return false;
  to = m->d + (to - m->h);
  memcpy(slot, &to, sizeof to);
  return true;
}

typedef struct { size_t n; Map **m; void **h; size_t *s; unsigned char *k; void **dev; void **tmp; } Frame;

static void frame_open(Frame *f, size_t n, void **h, size_t *s, unsigned short *kinds) {
  f->n = n;
  f->m = calloc(n + 1, sizeof(void *));
  f->h = calloc(n + 1, sizeof(void *));
  f->s = calloc(n + 1, sizeof(size_t));
  f->k = calloc(n + 1, 1);
  f->dev = calloc(n + 1, sizeof(void *));
  f->tmp = calloc(n + 1, sizeof(void *));
  for (size_t i = 0; i < n; i++) {
    int k = kinds[i] & 0xff;
    if ((k & 96) == 96) k &= ~96; /* mapped implicitly */
    f->h[i] = h[i];
    f->s[i] = s[i];
    f->k[i] = k;
    if (logging) fprintf(stderr, "accdev:   map kind %d addr %p size %zu\n", k, h[i], s[i]);
    switch (k) {
    case K_ALLOC: case K_TO: case K_FROM: case K_TOFROM:
    case K_F_ALLOC: case K_F_TO: case K_F_FROM: case K_F_TOFROM:
    case K_ALWAYS_TO: case K_ALWAYS_FROM: case K_ALWAYS_TOFROM:
      if (!h[i]) { f->dev[i] = 0; break; }
      if (s[i] == 0 && !find(h[i], 0)) { f->dev[i] = guard; break; }
      f->m[i] = enter(h[i], s[i], k & 1, k >= 17 && k <= 19);
      f->dev[i] = f->m[i]->d + ((char *)h[i] - f->m[i]->h);
      if (s[i] == sizeof(void *) && f->m[i]->ref == 1 && (k & 1) && translate(f->dev[i])) f->k[i] = K_TO;
      break;
    case K_TO_PSET: /* an array descriptor; the POINTER entry that follows lies inside it */
      f->m[i] = enter(h[i], s[i], true, false);
      f->dev[i] = f->m[i]->d + ((char *)h[i] - f->m[i]->h);
      break;
    case K_ALWAYS_POINTER:
    case K_POINTER: {
      void *to = *(void **)h[i];
      Map *m;
      f->m[i] = enter(h[i], sizeof(void *), true, true);
      f->dev[i] = f->m[i]->d + ((char *)h[i] - f->m[i]->h);
      m = to ? find((char *)to + s[i], 1) : 0;
      if (m) to = m->d + ((char *)to - m->h);
      else if (to) to = guard;
      memcpy(f->dev[i], &to, sizeof to);
      break; }
    case K_FORCE_PRESENT: {
      Map *m = find(h[i], s[i]);
      if (!m && s[i] == sizeof(void *)) {
        f->tmp[i] = malloc(sizeof(void *));
        memcpy(f->tmp[i], h[i], sizeof(void *));
        f->dev[i] = f->tmp[i];
        if (translate(f->tmp[i])) break;
      }
      if (!m) broken("data said to be present are not");
      m->ref++;
      f->m[i] = m;
      f->dev[i] = m->d + ((char *)h[i] - m->h);
      break; }
    case K_IF_PRESENT: case K_ZERO_LEN: {
      Map *m = h[i] ? find(h[i], s[i]) : 0;
      if (m) { m->ref++; f->m[i] = m; f->dev[i] = m->d + ((char *)h[i] - m->h); }
      else f->dev[i] = h[i] ? guard : 0;
      break; }
    case K_FIRSTPRIVATE:
      f->tmp[i] = malloc(s[i] ? s[i] : 1);
      memcpy(f->tmp[i], h[i], s[i]);
      f->dev[i] = f->tmp[i];
      if (s[i] == sizeof(void *)) translate(f->tmp[i]);
      break;
    case K_FIRSTPRIVATE_INT:
      f->dev[i] = h[i];
      translate(&f->dev[i]);
      break;
    case K_USE_DEVICE_PTR: {
      Map *m = find(h[i], 0);
      if (m) f->dev[i] = m->d + ((char *)h[i] - m->h), h[i] = f->dev[i];
      break; }
    case K_STRUCT: {
      /* the s[i] members that follow lie in one object */
      char *lo = h[i], *hi = lo + 1;
      for (size_t j = i + 1; j < n && j <= i + s[i]; j++)
        if ((char *)h[j] + s[j] > hi) hi = (char *)h[j] + s[j];
      f->s[i] = hi - lo;
      f->k[i] = K_ALLOC;
      f->m[i] = enter(lo, hi - lo, false, false);
      f->dev[i] = f->m[i]->d + (lo - f->m[i]->h);
      for (size_t j = i + 1; j < n && j <= i + s[i]; j++) {
        int kj = kinds[j] & 0xff;
        if (f->m[i]->ref == 1 && (kj & 1) && kj <= 3) memcpy(f->m[i]->d + ((char *)h[j] - f->m[i]->h), h[j], s[j]);
      }
      break; }
    case K_ATTACH: {
      Map *m = find(h[i], sizeof(void *)), *t;
      if (!m) break;
      char *to = *(char **)h[i];
      t = to ? find(to + s[i], 1) : 0;
      if (t) to = t->d + (to - t->h);
      else if (to) to = guard;
      memcpy(m->d + ((char *)h[i] - m->h), &to, sizeof to);
      f->k[i] = 255;
      break; }
    case K_DETACH:
      break;
    default:
      unknown("map kind", k);
    }
  }
}

static void frame_close(Frame *f) {
  /* copies first, releases afterwards: entries may share one mapping */
  for (size_t i = f->n; i-- > 0;) {
    int k = f->k[i];
    if (f->tmp[i]) free(f->tmp[i]);
    if (!f->m[i]) continue;
    leave(f->m[i], f->h[i], f->s[i], k < 200 && (k & 2) && (k <= 3 || k >= 128 || (k >= 17 && k <= 19)), k >= 17 && k <= 19);
  }
  free(f->m); free(f->h); free(f->s); free(f->k); free(f->dev); free(f->tmp);
}

static Frame stack[64];
static int depth;

static void data_start(size_t n, void **h, size_t *s, unsigned short *k) {
  init();
  ndata++;
  if (logging) fprintf(stderr, "accdev: data scope opens\n");
  if (depth == 64) unknown("nesting", depth);
  frame_open(&stack[depth++], n, h, s, k);
}

static void data_end(void) {
  if (logging) fprintf(stderr, "accdev: data scope closes\n");
  if (!depth) broken("a data scope is closed that was not opened");
  frame_close(&stack[--depth]);
}

static void (*cur_fn)(void *);
static void *cur_data;

static void region(void (*fn)(void *), size_t n, void **h, size_t *s, unsigned short *k) {
  Frame f;
  init();
  nreg++;
  if (logging) fprintf(stderr, "accdev: region\n");
  frame_open(&f, n, h, s, k);
  cur_fn = fn;
  cur_data = f.dev;
  fn(f.dev);
  frame_close(&f);
}

static void update(size_t n, void **h, size_t *s, unsigned short *kinds) {
  init();
  nupd++;
  for (size_t i = 0; i < n; i++) {
    int k = kinds[i] & 0xff;
    Map *m = find(h[i], s[i]);
    if (k == K_TO_PSET || k == K_POINTER || k == K_ALWAYS_POINTER) continue;
    if (!m) {
      if (k >= 128) broken("update of data that are not present");
      continue;
    }
    switch (k & 0x7f) {
    case K_TO: case K_ALWAYS_TO: memcpy(m->d + ((char *)h[i] - m->h), h[i], s[i]); nto++; bto += s[i]; break;
    case K_FROM: case K_ALWAYS_FROM: memcpy(h[i], m->d + ((char *)h[i] - m->h), s[i]); nfrom++; bfrom += s[i]; break;
    default: unknown("update kind", k);
    }
  }
}

static void enter_data(size_t n, void **h, size_t *s, unsigned short *kinds) {
  Frame f;
  init();
  ndata++;
  frame_open(&f, n, h, s, kinds);
  free(f.m); free(f.h); free(f.s); free(f.k); free(f.dev); free(f.tmp); /* stays mapped */
}

static void exit_data(size_t n, void **h, size_t *s, unsigned short *kinds) {
  init();
  for (size_t i = 0; i < n; i++) {
    int k = kinds[i] & 0xff;
    Map *m = find(h[i], s[i]);
    if (!m) continue;
    switch (k) {
    case K_FROM: case K_ALWAYS_FROM: leave(m, h[i], s[i], true, k == K_ALWAYS_FROM); break;
    case K_F_FROM: m->ref = 1; leave(m, h[i], s[i], true, true); break;
    case K_DELETE: m->ref = 1; leave(m, h[i], s[i], false, false); break;
    case K_RELEASE: case K_ALLOC: case K_F_ALLOC: leave(m, h[i], s[i], false, false); break;
    case K_POINTER: case K_ALWAYS_POINTER: case K_TO_PSET: break;
    default: unknown("exit kind", k);
    }
  }
}

/* OpenMP */
void __wrap_GOMP_target_ext(int dev, void (*fn)(void *), size_t n, void **h, size_t *s, unsigned short *k, unsigned fl, void **dep,
                            void **args) {
  region(fn, n, h, s, k);
}
void __wrap_GOMP_target_data_ext(int dev, size_t n, void **h, size_t *s, unsigned short *k) { data_start(n, h, s, k); }
void __wrap_GOMP_target_end_data(void) { data_end(); }
void __wrap_GOMP_target_update_ext(int dev, size_t n, void **h, size_t *s, unsigned short *k, unsigned fl, void **dep) {
  update(n, h, s, k);
}
void __wrap_GOMP_target_enter_exit_data(int dev, size_t n, void **h, size_t *s, unsigned short *k, unsigned fl, void **dep) {
  if (fl & 2) exit_data(n, h, s, k);
  else enter_data(n, h, s, k);
}

/* The first team is the thread that entered the region. When it reaches the
 * teams construct it starts the others, which run the same region function;
 * nothing else may stand between target and teams. */
static __thread int team, nteams = 1, entered;
typedef struct { int id, n; } Job;
static pthread_t tid[256];

static void pause_(int id) {
  const char *d = getenv("VF_DELAY"), *s = getenv("VF_SEED");
  unsigned m = d ? atoi(d) : 0, x = (s ? atoi(s) : 1) * 2654435761u + id * 40503u + nreg * 9176u;
  x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
  if (m) usleep(x % (m + 1));
}

static void *team_main(void *p) {
  Job j = *(Job *)p;
  free(p);
  team = j.id;
  nteams = j.n;
  entered = 1;
  pause_(j.id);
  cur_fn(cur_data);
  return 0;
}

bool __wrap_GOMP_teams4(unsigned low, unsigned high, unsigned limit, bool first) {
  const char *t = getenv("VF_TEAMS");
  if (entered == 1) { entered = 2; return true; }   /* a started team: once */
  if (entered == 2) { if (first) unknown("second teams construct", 0); return false; }
  if (first) {
    int n = t ? atoi(t) : 1;
    if (low && n < (int)low) n = low;
    if (high && n > (int)high) n = high;
    if (n > 64) n = 64;
    if (n < 1) n = 1;
    nteams = n;
    team = 0;
    for (int i = 1; i < n; i++) {
      Job *j = malloc(sizeof *j);
      j->id = i;
      j->n = n;
      if (pthread_create(&tid[i], 0, team_main, j)) unknown("thread", i);
    }
    nteam += n;
    pause_(0);
    return true;
  }
  for (int i = 1; i < nteams; i++) pthread_join(tid[i], 0);
  nteams = 1;
  return false;
}
int __wrap_omp_get_num_teams(void) { return nteams; }
int __wrap_omp_get_team_num(void) { return team; }
int __wrap_omp_is_initial_device(void) { return 1; }
int __wrap_omp_is_initial_device_(void) { return 1; }

/* OpenACC */
void __wrap_GOACC_parallel_keyed(int fl, void (*fn)(void *), size_t n, void **h, size_t *s, unsigned short *k, ...) {
  region(fn, n, h, s, k);
}
void __wrap_GOACC_data_start(int fl, size_t n, void **h, size_t *s, unsigned short *k) { data_start(n, h, s, k); }
void __wrap_GOACC_data_end(void) { data_end(); }
void __wrap_GOACC_update(int fl, size_t n, void **h, size_t *s, unsigned short *k, int async, int nw, ...) { update(n, h, s, k); }
void __wrap_GOACC_enter_data(int fl, size_t n, void **h, size_t *s, unsigned short *k, int async, int nw, ...) {
  enter_data(n, h, s, k);
}
void __wrap_GOACC_exit_data(int fl, size_t n, void **h, size_t *s, unsigned short *k, int async, int nw, ...) { exit_data(n, h, s, k); }
void __wrap_GOACC_wait(int async, int nw, ...) {}
void __wrap_GOACC_declare(int fl, size_t n, void **h, size_t *s, unsigned short *k) { unknown("declare", 0); }
int __wrap_acc_on_device(int d) { return 0; }
int __wrap_acc_on_device_h_(int *d) { return 0; }
