/* libgomp is not instrumented by ThreadSanitizer. These wrappers (linked with
 * -Wl,--wrap) tell it about the ordering OpenMP constructs give and nothing
 * more, and insert seeded delays at the scheduling points.
 * Compiled with the C compiler, -fsanitize=thread.
 */
// wrap: GOMP_parallel GOMP_parallel_loop_static GOMP_parallel_loop_dynamic GOMP_parallel_loop_guided GOMP_parallel_loop_runtime
// wrap: GOMP_parallel_loop_nonmonotonic_dynamic GOMP_parallel_loop_nonmonotonic_guided GOMP_parallel_loop_nonmonotonic_runtime GOMP_parallel_loop_maybe_nonmonotonic_runtime
// wrap: GOMP_parallel_sections GOMP_barrier GOMP_barrier_cancel GOMP_loop_end GOMP_sections_end
// wrap: GOMP_single_start GOMP_single_copy_start GOMP_single_copy_end
// wrap: GOMP_critical_start GOMP_critical_end GOMP_critical_name_start GOMP_critical_name_end GOMP_atomic_start GOMP_atomic_end
// wrap: GOMP_task GOMP_taskwait GOMP_taskgroup_start GOMP_taskgroup_end GOMP_ordered_start GOMP_ordered_end
// wrap: GOMP_loop_static_next GOMP_loop_dynamic_next GOMP_loop_guided_next GOMP_loop_runtime_next GOMP_loop_nonmonotonic_dynamic_next GOMP_loop_nonmonotonic_guided_next
// wrap: GOMP_taskloop GOMP_taskloop_ull
// wrap: omp_set_lock omp_unset_lock omp_test_lock omp_set_nest_lock omp_unset_nest_lock
// wrap: omp_set_lock_ omp_unset_lock_
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <time.h>

void __tsan_acquire(void *);
void __tsan_release(void *);
void AnnotateHappensBefore(const char *, int, void *);
#define NOTSAN __attribute__((no_sanitize("thread")))

struct region {
  char start, end, bar[2], task[1], single, group;
};
static __thread struct region *cur;
static __thread unsigned phase;
static __thread uint64_t rstate;
static struct region outer;
static char critName, atom, ordered;
static unsigned long seed = 0;
static int maxDelay = -1;  /* microseconds */
static unsigned long stats[4];  /* regions, region entries, barriers, delays */
static unsigned long nthreadsSeen;

NOTSAN static void report(void) {
  const char *p = getenv("VF_GOMP_STATS");
  if (!p) return;
  FILE *f = fopen(p, "w");
  if (!f) return;
  fprintf(f, "{\"regions\": %lu, \"entries\": %lu, \"barriers\": %lu, \"delays\": %lu}\n",
          __atomic_load_n(&stats[0], __ATOMIC_RELAXED), __atomic_load_n(&stats[1], __ATOMIC_RELAXED),
          __atomic_load_n(&stats[2], __ATOMIC_RELAXED), __atomic_load_n(&stats[3], __ATOMIC_RELAXED));
  fclose(f);
}
NOTSAN __attribute__((constructor)) static void init(void) {
  const char *s = getenv("VF_SEED");
  seed = s ? strtoul(s, 0, 10) : 1;
  s = getenv("VF_DELAY");
  maxDelay = s ? atoi(s) : 100;
  atexit(report);
}
#define BUMP(i) __atomic_add_fetch(&stats[i], 1, __ATOMIC_RELAXED)
NOTSAN static void delay(void) {
  if (maxDelay <= 0) return;
  if (!rstate) rstate = seed * 0x9E3779B97F4A7C15ull + (uint64_t)__atomic_add_fetch(&nthreadsSeen, 1, __ATOMIC_RELAXED) * 0xD1B54A32D192ED03ull + 1;
  rstate ^= rstate << 13;
  rstate ^= rstate >> 7;
  rstate ^= rstate << 17;
  uint64_t r = rstate >> 20;
  if (r % 3 == 0) return;
  struct timespec t = {0, (long)((r >> 8) % (uint64_t)maxDelay) * 1000};
  BUMP(3);
  nanosleep(&t, 0);
}
NOTSAN static struct region *team(void) { return cur ? cur : &outer; }

struct start {
  void (*fn)(void *);
  void *data;
  struct region r;
};
NOTSAN static void tramp(void *p) {
  struct start *s = p;
  struct region *old = cur;
  unsigned oldPhase = phase;
  cur = &s->r;
  phase = 0;
  BUMP(1);
  delay();
  __tsan_acquire(&s->r.start);
  s->fn(s->data);
  __tsan_release(&s->r.end);
  delay();
  cur = old;
  phase = oldPhase;
}
/* the region is kept for ever: a fresh address per region avoids stale order */
#define REGION_BEGIN                                        \
  struct start *s = calloc(1, sizeof *s);                   \
  s->fn = fn;                                               \
  s->data = data;                                           \
  BUMP(0);                                                  \
  __tsan_release(&s->r.start);
#define REGION_END __tsan_acquire(&s->r.end); __tsan_acquire(&s->r.task[0]);

void __real_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
NOTSAN void __wrap_GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  REGION_BEGIN __real_GOMP_parallel(tramp, s, n, flags);
  REGION_END
}
void __real_GOMP_parallel_sections(void (*)(void *), void *, unsigned, unsigned, unsigned);
NOTSAN void __wrap_GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned c, unsigned flags) {
  REGION_BEGIN __real_GOMP_parallel_sections(tramp, s, n, c, flags);
  REGION_END
}
#define PLOOP(name)                                                                                        \
  void __real_##name(void (*)(void *), void *, unsigned, long, long, long, long, unsigned);                \
  NOTSAN void __wrap_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c, unsigned f) { \
    REGION_BEGIN __real_##name(tramp, s, n, a, b, i, c, f);                                                \
    REGION_END                                                                                             \
  }
PLOOP(GOMP_parallel_loop_static)
PLOOP(GOMP_parallel_loop_dynamic)
PLOOP(GOMP_parallel_loop_guided)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
#define PLOOPR(name)                                                                                       \
  void __real_##name(void (*)(void *), void *, unsigned, long, long, long, unsigned);                      \
  NOTSAN void __wrap_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, unsigned f) { \
    REGION_BEGIN __real_##name(tramp, s, n, a, b, i, f);                                                   \
    REGION_END                                                                                             \
  }
PLOOPR(GOMP_parallel_loop_runtime)
PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)

NOTSAN static void arrive(struct region *r) {
  delay();
  BUMP(2);
  __tsan_release(&r->bar[phase & 1]);
}
NOTSAN static void depart(struct region *r) {
  __tsan_acquire(&r->bar[phase & 1]);
  __tsan_acquire(&r->task[0]);
  ++phase;
  delay();
}
#define BAR(name)                         \
  void __real_##name(void);               \
  NOTSAN void __wrap_##name(void) {       \
    struct region *r = team();            \
    arrive(r);                            \
    __real_##name();                      \
    depart(r);                            \
  }
BAR(GOMP_barrier)
BAR(GOMP_loop_end)
BAR(GOMP_sections_end)
bool __real_GOMP_barrier_cancel(void);
NOTSAN bool __wrap_GOMP_barrier_cancel(void) {
  struct region *r = team();
  arrive(r);
  bool x = __real_GOMP_barrier_cancel();
  depart(r);
  return x;
}
bool __real_GOMP_single_start(void);
NOTSAN bool __wrap_GOMP_single_start(void) {
  delay();
  return __real_GOMP_single_start();
}
void *__real_GOMP_single_copy_start(void);
NOTSAN void *__wrap_GOMP_single_copy_start(void) {
  delay();
  struct region *r = team();
  void *p = __real_GOMP_single_copy_start();
  if (p) __tsan_acquire(&r->single);
  return p;
}
void __real_GOMP_single_copy_end(void *);
NOTSAN void __wrap_GOMP_single_copy_end(void *p) {
  __tsan_release(&team()->single);
  __real_GOMP_single_copy_end(p);
}
#define LOCK(a, b, obj)                                                    \
  void __real_##a(void);                                                   \
  NOTSAN void __wrap_##a(void) { delay(); __real_##a(); __tsan_acquire(obj); } \
  void __real_##b(void);                                                   \
  NOTSAN void __wrap_##b(void) { __tsan_release(obj); __real_##b(); delay(); }
LOCK(GOMP_critical_start, GOMP_critical_end, &critName)
LOCK(GOMP_atomic_start, GOMP_atomic_end, &atom)
LOCK(GOMP_ordered_start, GOMP_ordered_end, &ordered)
#define LOCKP(a, b)                                                                   \
  void __real_##a(void *);                                                            \
  NOTSAN void __wrap_##a(void *p) { delay(); __real_##a(p); __tsan_acquire(p); }      \
  void __real_##b(void *);                                                            \
  NOTSAN void __wrap_##b(void *p) { __tsan_release(p); __real_##b(p); delay(); }
LOCKP(GOMP_critical_name_start, GOMP_critical_name_end)
LOCKP(omp_set_lock, omp_unset_lock)
LOCKP(omp_set_nest_lock, omp_unset_nest_lock)
LOCKP(omp_set_lock_, omp_unset_lock_)
int __real_omp_test_lock(void *);
NOTSAN int __wrap_omp_test_lock(void *p) {
  int x = __real_omp_test_lock(p);
  if (x) __tsan_acquire(p);
  return x;
}
#define NEXT(name)                                        \
  bool __real_##name(long *, long *);                     \
  NOTSAN bool __wrap_##name(long *a, long *b) { delay(); return __real_##name(a, b); }
NEXT(GOMP_loop_static_next)
NEXT(GOMP_loop_dynamic_next)
NEXT(GOMP_loop_guided_next)
NEXT(GOMP_loop_runtime_next)
NEXT(GOMP_loop_nonmonotonic_dynamic_next)
NEXT(GOMP_loop_nonmonotonic_guided_next)

/* tasks */
struct tk {
  void (*fn)(void *);
  void *data, *mem;
  struct region *r;
  int ndep;
  void **dep;
  char born;
};
NOTSAN static void taskTramp(void *p) {
  struct tk *t = *(struct tk **)p;
  delay();
  __tsan_acquire(&t->born);
  for (int i = 0; i < t->ndep; ++i) __tsan_acquire(t->dep[i]);
  t->fn(t->data);
  for (int i = 0; i < t->ndep; ++i) __tsan_release(t->dep[i]);
  __tsan_release(&t->r->task[0]);
  __tsan_release(&t->born);
}
void __real_GOMP_task(void (*)(void *), void *, void (*)(void *, void *), long, long, bool, unsigned, void **, int, void *);
NOTSAN void __wrap_GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool ifc,
                             unsigned flags, void **depend, int prio, void *detach) {
  struct tk *t = calloc(1, sizeof *t);
  t->fn = fn;
  t->r = team();
  if (align < 16) align = 16;
  t->mem = aligned_alloc(align, (size + align) / align * align);
  if (!ifc) t->data = data; /* runs at once, on the caller's data */
  else {
    if (cpy) cpy(t->mem, data);
    else memcpy(t->mem, data, size);
    t->data = t->mem;
  }
  if (depend && (flags & 8)) {
    uintptr_t n = (uintptr_t)depend[0];
    void **a = depend + 2;
    if (!n) { n = (uintptr_t)depend[1]; a = depend + 5; }
    t->ndep = (int)n;
    t->dep = calloc(n + 1, sizeof(void *));
    for (uintptr_t i = 0; i < n; ++i) t->dep[i] = a[i];
  }
  __tsan_release(&t->born);
  __real_GOMP_task(taskTramp, &t, 0, sizeof t, sizeof t, ifc, flags, depend, prio, detach);
  if (!ifc) __tsan_acquire(&t->born);
}
void __real_GOMP_taskwait(void);
NOTSAN void __wrap_GOMP_taskwait(void) {
  delay();
  __real_GOMP_taskwait();
  __tsan_acquire(&team()->task[0]);
}
void __real_GOMP_taskgroup_start(void);
NOTSAN void __wrap_GOMP_taskgroup_start(void) { __real_GOMP_taskgroup_start(); }
void __real_GOMP_taskgroup_end(void);
NOTSAN void __wrap_GOMP_taskgroup_end(void) {
  __real_GOMP_taskgroup_end();
  __tsan_acquire(&team()->task[0]);
}

/* taskloop: libgomp copies the argument block once per task and writes the
 * task's range into its first two words, so the hook rides behind the block.
 * One trampoline per block size, as the task body is given nothing else. */
struct tl {
  void (*fn)(void *);
  void (*cpy)(void *, void *);
  long size;
  struct region *r;
  char born;
};
static __thread struct tl *creating;
NOTSAN static void tlRun(void *p, struct tl *t) {
  delay();
  __tsan_acquire(&t->born);
  t->fn(p);
  __tsan_release(&t->r->task[0]);
  delay();
}
NOTSAN static void tlCopy(void *to, void *from) {
  struct tl *t = creating;
  if (t->cpy) t->cpy(to, from);
  else memcpy(to, from, t->size);
  *(struct tl **)((char *)to + t->size) = t;
}
#define TL1(k) NOTSAN static void tl##k(void *p) { tlRun(p, *(struct tl **)((char *)p + 8 * 0x##k)); }
#define TL8(k) TL1(k##0) TL1(k##1) TL1(k##2) TL1(k##3) TL1(k##4) TL1(k##5) TL1(k##6) TL1(k##7) \
  TL1(k##8) TL1(k##9) TL1(k##a) TL1(k##b) TL1(k##c) TL1(k##d) TL1(k##e) TL1(k##f)
TL8(0) TL8(1) TL8(2) TL8(3)
#define TP(k) tl##k##0, tl##k##1, tl##k##2, tl##k##3, tl##k##4, tl##k##5, tl##k##6, tl##k##7, \
  tl##k##8, tl##k##9, tl##k##a, tl##k##b, tl##k##c, tl##k##d, tl##k##e, tl##k##f
static void (*const tlTable[64])(void *) = {TP(0), TP(1), TP(2), TP(3)};
#define TASKLOOP(name, T)                                                                                     \
  void __real_##name(void (*)(void *), void *, void (*)(void *, void *), long, long, unsigned, unsigned long, \
                     int, T, T, T);                                                                           \
  NOTSAN void __wrap_##name(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, \
                            unsigned flags, unsigned long n, int prio, T a, T b, T s) {                       \
    struct tl *t = calloc(1, sizeof *t), *old = creating;                                                     \
    t->fn = fn;                                                                                               \
    t->cpy = cpy;                                                                                             \
    t->size = (size + 7) / 8 * 8;                                                                             \
    t->r = team();                                                                                            \
    if (t->size / 8 >= 64) abort();                                                                           \
    char *block = calloc(1, t->size + sizeof(void *) + 64);                                                   \
    block += 63 - ((uintptr_t)block + 63) % 64;                                                               \
    memcpy(block, data, size);                                                                                \
    *(struct tl **)(block + t->size) = t;                                                                     \
    creating = t;                                                                                             \
    __tsan_release(&t->born);                                                                                 \
    __real_##name(tlTable[t->size / 8], cpy ? data : block, cpy ? tlCopy : 0, t->size + sizeof(void *), align < 8 ? 8 : align, \
                  flags, n, prio, a, b, s);                                                                   \
    creating = old;                                                                                           \
    if (!(flags & (1 << 11))) __tsan_acquire(&t->r->task[0]);                                                 \
  }
TASKLOOP(GOMP_taskloop, long)
TASKLOOP(GOMP_taskloop_ull, unsigned long long)
