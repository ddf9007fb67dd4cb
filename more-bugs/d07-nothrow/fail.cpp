
// Array allocations of SIZE bytes, told apart by the place in the program that asks for them.
// SITES=file: lists the places and how often each asked. FAIL_SITE, FAIL_K: the K-th such allocation fails.
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <map>
#include <new>
static long size() { static long n = atol(getenv("SIZE")); return n; }
static long site(void *pc) { Dl_info i; return dladdr(pc, &i) ? (char *)pc - (char *)i.dli_fbase : 0; }
static std::map<long, long> *sites;
static void list() {
  FILE *f = fopen(getenv("SITES"), "w");
  for (auto &s : *sites) fprintf(f, "%ld %ld\n", s.first, s.second);
  fclose(f);
}
static bool fails(size_t n, void *pc) {
  static bool busy = false;
  if (busy || long(n) != size()) return false;
  long s = site(pc);
  if (getenv("SITES")) {
    busy = true;
    if (!sites) { sites = new std::map<long, long>; atexit(list); }
    (*sites)[s]++;
    busy = false;
    return false;
  }
  static long wanted = atol(getenv("FAIL_SITE")), k = atol(getenv("FAIL_K"));
  return s == wanted && k-- == 0;
}
void *operator new[](size_t n) {
  if (fails(n, __builtin_return_address(0))) throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  if (fails(n, __builtin_return_address(0))) return nullptr;
  return malloc(n ? n : 1);
}
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
