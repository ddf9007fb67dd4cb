
/* A processor-time clock that is a quarter of an hour further on at every reading, if JUMP is set. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>
clock_t clock(void) {
  static clock_t jump;
  clock_t (*real)(void) = (clock_t (*)(void))dlsym(RTLD_NEXT, "clock");
  if (getenv("JUMP")) jump += (clock_t)900 * CLOCKS_PER_SEC;
  return real() + jump;
}
