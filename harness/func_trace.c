/* Records which functions of the program are entered (-finstrument-functions);
   the names go to the file VF_FUNCS at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#define N (1 << 16)
#define NI __attribute__((no_instrument_function))
static void* tab[N];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
NI void __cyg_profile_func_enter(void* f, void* c) {
  unsigned long h = ((unsigned long) f >> 4) % N;
  (void) c;
  for (;;) {
    void* t = __atomic_load_n(&tab[h], __ATOMIC_RELAXED);
    if (t == f) return;
    if (!t) {
      pthread_mutex_lock(&mu);
      if (!tab[h]) tab[h] = f;
      pthread_mutex_unlock(&mu);
      continue;
    }
    h = (h + 1) % N;
  }
}
NI void __cyg_profile_func_exit(void* f, void* c) { (void) f; (void) c; }
NI __attribute__((destructor)) static void done(void) {
  const char* p = getenv("VF_FUNCS");
  if (!p) return;
  FILE* o = fopen(p, "w");
  for (int i = 0; i < N; ++i) {
    Dl_info d;
    if (tab[i] && dladdr(tab[i], &d) && d.dli_sname) fprintf(o, "%s\n", d.dli_sname);
  }
  fclose(o);
}
