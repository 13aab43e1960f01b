/* Preloaded into OpenMP programs: counts the threads that execute each parallel
 * region. At exit one line "<threads> <regions of that size>" per size goes to
 * the file VF_TEAMS. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#define MAXT 4096
static unsigned long hist[MAXT];
struct arg {
  void (*fn)(void *);
  void *data;
  unsigned n;
};
static void tramp(void *p) {
  struct arg *a = p;
  __atomic_add_fetch(&a->n, 1, __ATOMIC_RELAXED);
  a->fn(a->data);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) {
  static void (*real)(void (*)(void *), void *, unsigned, unsigned);
  if (!real) real = (void (*)(void (*)(void *), void *, unsigned, unsigned)) dlsym(RTLD_NEXT, "GOMP_parallel");
  struct arg a = {fn, data, 0};
  real(tramp, &a, nt, flags);
  __atomic_add_fetch(&hist[a.n < MAXT ? a.n : MAXT - 1], 1, __ATOMIC_RELAXED);
}
__attribute__((destructor)) static void done(void) {
  const char *p = getenv("VF_TEAMS");
  FILE *f = p ? fopen(p, "w") : 0;
  if (!f) return;
  for (int i = 0; i < MAXT; ++i)
    if (hist[i]) fprintf(f, "%d %lu\n", i, hist[i]);
  fclose(f);
}
