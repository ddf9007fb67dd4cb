// The simulated heap: operator new/delete over a fixed-address arena with red zones, quarantine,
// byte-accurate shadow, seeded contents/layout and injected allocation failures.
#include "rt.h"
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <deque>
#include <unordered_map>
#include <map>
#include <vector>
extern "C" char __executable_start, etext;

namespace sim {
uintptr_t arena_lo = 0x100000000000ull, arena_used = 0;
static const uint64_t ASIZE = 16ull << 30;
uint8_t* heap_shadow = 0;
static bool heap_on = false; extern bool running;
static uint64_t live = 0, peak = 0, n_alloc = 0, n_free = 0, n_fail = 0, n_bad = 0;
static Rng* rng_heap;
struct Bad { uintptr_t pc, off; size_t size; bool write; uint8_t code; uint64_t region; int tid; };
static std::vector<Bad>* bads;

// block: [16 size+total][16 redzone][user ...][tail red zone >= 16]
struct Hdr { uint64_t size; uint32_t total16; uint32_t magic; };
static const uint32_t LIVE = 0xA11C0DE5, DEAD = 0xDEADB10C;
static const uint64_t HEAD = 32;
static std::unordered_map<uint64_t, std::vector<uintptr_t> >* freelist;
static std::deque<uintptr_t>* quarantine; static uint64_t quarantined = 0;

void heap_init() {
  Guard g;
  void* p = mmap((void*)arena_lo, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)arena_lo) { perror("sim: mmap arena"); _exit(97); }
  heap_shadow = (uint8_t*)mmap((void*)0x200000000000ull, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (heap_shadow == MAP_FAILED) { perror("sim: mmap shadow"); _exit(97); }
  rng_heap = new Rng(cfg.seed ^ 0x4EA9); bads = new std::vector<Bad>();
  freelist = new std::unordered_map<uint64_t, std::vector<uintptr_t> >(); quarantine = new std::deque<uintptr_t>();
  heap_on = true;
}
void heap_bad(uintptr_t a, size_t size, bool write, uintptr_t pc) {
  ++n_bad; Guard g;
  for (auto& b : *bads) if (b.pc == pc) return;
  if (bads->size() < 64) bads->push_back({pc, a - arena_lo, size, write, heap_shadow[(a - arena_lo) >> 3], cur_region(), cur_tid()});
}
// range check used by the wrapped memcpy/memmove/memset
void heap_range(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  if (!heap_on || !n || a - arena_lo >= ASIZE) return;
  for (uintptr_t x = a; x < a + n;) {
    uintptr_t off = x - arena_lo; uint8_t k = heap_shadow[off >> 3];
    size_t l = 8 - (off & 7); if (l > a + n - x) l = a + n - x;
    if (k && !(k < 8 && (off & 7) + l <= k)) { heap_bad(x, l, write, pc); return; }
    x += l;
  }
}
static void fill(uint8_t* p, size_t n) {
  if (cfg.heap_fill == 0 || n_alloc < cfg.fill_lo || n_alloc >= cfg.fill_hi) { memset(p, 0, n); return; }
  if (cfg.heap_fill > 0) { memset(p, cfg.heap_fill, n); return; }
  uint64_t x = rng_heap->next();
  for (size_t i = 0; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; uint64_t v = x ^ (x >> 29); memcpy(p + i, &v, 8); }
}
static void* raw_alloc(size_t n) {
  uint64_t user = (n + 15) & ~15ull;
  uint64_t tail = 16 + (cfg.heap_layout ? 16 * rng_heap->below(1 + (uint64_t)cfg.heap_layout) : 0);
  uint64_t total = HEAD + user + tail;
  if (n > ASIZE) return 0;
  uintptr_t b = 0;
  auto it = freelist->find(total);
  if (it != freelist->end() && !it->second.empty()) { b = it->second.back(); it->second.pop_back(); if (in_parallel()) race_forget(b, total); }
  else {
    if (arena_used + total > ASIZE) return 0;
    b = arena_lo + arena_used; arena_used += total;
  }
  Hdr* h = (Hdr*)b; h->size = n; h->total16 = (uint32_t)(total >> 4); h->magic = LIVE;
  uint8_t* s = heap_shadow + ((b - arena_lo) >> 3);
  memset(s, 0xFA, HEAD / 8);
  memset(s + HEAD / 8, 0, n / 8);
  size_t k = n / 8;
  if (n & 7) s[HEAD / 8 + k++] = n & 7;
  memset(s + HEAD / 8 + k, 0xFB, (total - HEAD) / 8 - k);
  fill((uint8_t*)b + HEAD, user);
  return (void*)(b + HEAD);
}
// Call sites of the program (libraries move between executions, their calls count as one site): how often each
// allocated, the first occasions and, further on, one occasion per doubling.
struct Site { uint64_t count; std::vector<uint64_t> at; };
static std::map<uintptr_t, Site>* sites;
static void note_site(uintptr_t pc) {
  if (!sites) sites = new std::map<uintptr_t, Site>();
  if (pc < (uintptr_t)&__executable_start || pc >= (uintptr_t)&etext) pc = 0;
  Site& s = (*sites)[pc]; uint64_t c = s.count++;
  if (c < 4 || (c & (c - 1)) == 0 || ((c - 1) & (c - 2)) == 0) s.at.push_back(n_alloc + 1);
}
static void* sim_new(size_t n, bool nothrow, uintptr_t pc) {
  if (!heap_on || in_sim) { void* p = malloc(n ? n : 1); if (!p) _exit(96); return p; }
  ++in_sim;
  if (running && cfg.alloc_sites) note_site(pc);
  if (running) ++n_alloc; // what static initialisers take before main does not count
  ++steps;
  if (running && n_alloc == cfg.fill_lo && cfg.fill_hi == cfg.fill_lo + 1) event("filled pc=%lx size=%lu", (unsigned long)pc, (unsigned long)n);
  bool fail = false;
  if (running && cfg.alloc_fail_at && (n_alloc == cfg.alloc_fail_at || (cfg.alloc_fail_sticky && n_alloc > cfg.alloc_fail_at))) fail = true;
  if (running && cfg.alloc_limit && live + n > cfg.alloc_limit) fail = true;
  void* p = fail ? 0 : raw_alloc(n);
  if (!p) {
    ++n_fail; if (n_fail <= 3) event("alloc-fail n=%lu size=%lu%s", (unsigned long)n_alloc, (unsigned long)n, fail ? "" : " (oversized)");
    if (fail) count_fault("alloc_fail");
    --in_sim; if (nothrow) return 0; throw std::bad_alloc();
  }
  live += n; if (live > peak) peak = live;
  --in_sim; return p;
}
static void sim_delete(void* p, uintptr_t pc) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  if (a - arena_lo >= ASIZE) { if (heap_on || in_sim) free(p); else free(p); return; }
  Guard g;
  Hdr* h = (Hdr*)(a - HEAD);
  if (heap_shadow[((a - HEAD) - arena_lo) >> 3] != 0xFA || h->magic != LIVE) {
    heap_bad(a, 0, true, pc);
    event("bad-delete off=%lx %s", (unsigned long)(a - arena_lo), h->magic == DEAD ? "double" : "wild");
    return;
  }
  ++n_free; live -= h->size; h->magic = DEAD;
  uint64_t total = (uint64_t)h->total16 << 4;
  memset(heap_shadow + ((a - HEAD - arena_lo) >> 3), 0xFD, total / 8);
  quarantine->push_back(a - HEAD); quarantined += total;
  if (cfg.heap_fill && !cfg.fill_lo) memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
  while (quarantined > (32ull << 20) && !quarantine->empty()) {
    uintptr_t b = quarantine->front(); quarantine->pop_front();
    uint64_t t = (uint64_t)((Hdr*)b)->total16 << 4; quarantined -= t;
    if (t > (1 << 20)) { Hdr save = *(Hdr*)b; madvise((void*)((b + 4095) & ~4095ull), (t - 4096) & ~4095ull, MADV_DONTNEED); *(Hdr*)b = save; }
    (*freelist)[t].push_back(b);
  }
}
void heap_report(FILE* f) {
  fprintf(f, "allocs %lu\nfrees %lu\npeak %lu\nlive %lu\nalloc_failed %lu\nheap_bad %lu\n", (unsigned long)n_alloc, (unsigned long)n_free, (unsigned long)peak, (unsigned long)live, (unsigned long)n_fail, (unsigned long)n_bad);
  if (sites) for (auto& k : *sites) { fprintf(f, "site %lx %lu", (unsigned long)k.first, (unsigned long)k.second.count); for (uint64_t i : k.second.at) fprintf(f, " %lu", (unsigned long)i); fprintf(f, "\n"); }
  if (bads) for (auto& b : *bads) fprintf(f, "bad %lx %s size=%lu code=%02x region=%lu tid=%d\n", (unsigned long)b.pc, b.write ? "W" : "R", (unsigned long)b.size, b.code, (unsigned long)b.region, b.tid);
}
} // namespace sim
using namespace sim;
void* operator new(size_t n) { return sim_new(n, false, (uintptr_t)__builtin_return_address(0)); }
void* operator new[](size_t n) { return sim_new(n, false, (uintptr_t)__builtin_return_address(0)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true, (uintptr_t)__builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true, (uintptr_t)__builtin_return_address(0)); }
void operator delete(void* p) noexcept { sim_delete(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void* p) noexcept { sim_delete(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { sim_delete(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p, (uintptr_t)__builtin_return_address(0)); }
extern "C" {
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
#define RPC ((uintptr_t)__builtin_return_address(0))
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (!in_sim) { heap_range((uintptr_t)s, n, false, RPC); heap_range((uintptr_t)d, n, true, RPC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (!in_sim) { heap_range((uintptr_t)s, n, false, RPC); heap_range((uintptr_t)d, n, true, RPC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (!in_sim) heap_range((uintptr_t)d, n, true, RPC); return __real_memset(d, c, n); }
}
