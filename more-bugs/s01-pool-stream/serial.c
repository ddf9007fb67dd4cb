
/* Runs the threads of every OpenMP team one after the other, forwards or (REVERSE set) backwards. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
static int tid, team = 1;
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return team; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  int (*max)(void) = (int (*)(void))dlsym(RTLD_NEXT, "omp_get_max_threads");
  (void)flags;
  team = n ? (int)n : max();
  for (int i = 0; i < team; i++) { tid = getenv("REVERSE") ? team - 1 - i : i; fn(data); }
  tid = 0; team = 1;
}
