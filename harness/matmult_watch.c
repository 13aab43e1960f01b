/* Watches the matrix routines of the running program: every call is passed on to
   the program's own routine, the matrices are recorded afterwards. Used with the
   program built as a shared library (its main is called from here). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
  double* base;
  size_t offset;
  struct { size_t elem_len; int version; signed char rank, type; signed short attribute; } dtype;
  ptrdiff_t span;
  struct { ptrdiff_t stride, lb, ub; } dim[2];
} mat;

static FILE* out;
static void rec(const char* tag, const mat* x) {
  if (!out) {
    char p[1200];
    snprintf(p, sizeof p, "%s/f.0.bin", getenv("VF_OUT"));
    out = fopen(p, "wb");
  }
  long n = x->dim[0].ub - x->dim[0].lb + 1, m = x->dim[1].ub - x->dim[1].lb + 1;
  if (n < 0) n = 0;
  if (m < 0) m = 0;
  char t[8];
  memset(t, ' ', 8);
  memcpy(t, tag, strlen(tag));
  double aux = (double) n;
  int64_t k = (int64_t) n * m;
  fwrite(t, 8, 1, out);
  fwrite(&aux, 8, 1, out);
  fwrite(&k, 8, 1, out);
  /* assumed-shape arguments: base is the first element */
  for (long j = 0; j < m; ++j)
    for (long i = 0; i < n; ++i) fwrite(&x->base[i * (x->dim[0].stride ? x->dim[0].stride : 1) + j * x->dim[1].stride], 8, 1, out);
  fflush(out);
}

typedef void (*f2)(mat*, mat*);
typedef void (*f3)(mat*, mat*, mat*);
void __matmult_mod_MOD_initmat(mat* a, mat* b) {
  ((f2) dlsym(RTLD_NEXT, "__matmult_mod_MOD_initmat"))(a, b);
  rec("ia", a);
  rec("ib", b);
}
#define MULT(k)                                                             \
  void __matmult_mod_MOD_matmult##k(mat* a, mat* b, mat* c) {               \
    ((f3) dlsym(RTLD_NEXT, "__matmult_mod_MOD_matmult" #k))(a, b, c);       \
    rec("ma", a);                                                           \
    rec("mb", b);                                                           \
    rec("mc" #k, c);                                                        \
  }
MULT(0)
MULT(1)

int vf_program_main(int, char**);
int main(int argc, char** argv) { return vf_program_main(argc, argv); }
