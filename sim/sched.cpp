// The OpenMP runtime of the simulated process and its seeded scheduler.
//
// /repo's sources are compiled with gcc -fopenmp -fsanitize=thread but linked against neither
// libgomp nor libtsan: this file is both.  Team members are real pthreads of which exactly one,
// the holder of the baton, ever runs; every instrumented memory access, atomic, lock and barrier
// is a point at which the seeded policy may pass the baton.  The same callbacks feed a
// happens-before race detector and the heap-bounds check of heap.cpp.
#include "rt.h"
#include <pthread.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <atomic>
#include <new>
#include <algorithm>
#include <unordered_map>

extern "C" void GOMP_barrier(void);
namespace sim {

static const int MAXT = 64;   // team members
static const int RT = 8;      // team members covered by the race detector
enum { READY, BLOCKED, DONE, IDLE };
struct Thr {
  pthread_t th; int id; std::atomic<int> sem; int state;
  void (*fn)(void*); void* data;
  uint64_t count, next;
  int prio; void* waiting_on;
  uint16_t vc[MAXT];
  uintptr_t stk_lo, stk_hi;
  int nest; bool started;
  uint64_t single_seq, loop_seq; // worksharing instance counters
};
static Thr thr[MAXT];
static int nthr_created = 1;
static __thread int my_tid = 0;
static __thread int is_worker = 0;

int g_par = 0;                 // inside a region with more than one member
static int team_n = 1;
static int nthreads_var = 0;
static uint64_t region = 0;    // counts multi-member regions
static uint64_t region_acc = 0;
static uintptr_t master_sp = 0;
static Rng* rng_sched;
static Rng* rng_team;
static uint64_t n_switches = 0, n_preempt = 0, n_regions = 0, n_short_teams = 0, n_stall_regions = 0, n_blocked = 0;
static uint64_t sched_hash = 0xcbf29ce484222325ull;
static std::vector<SchedEvent>* rec;
static uint64_t max_team = 1;
static std::map<int, uint64_t>* team_hist;
static std::map<std::string, uint64_t>* mode_hist;

bool in_parallel() { return g_par; }
int cur_tid() { return my_tid; }
uint64_t cur_region() { return region; }

// ---- baton --------------------------------------------------------------------------------
static void fwait(std::atomic<int>* s) {
  while (s->load() == 0) syscall(SYS_futex, (int*)s, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  s->store(0);
}
static void fpost(std::atomic<int>* s) { s->store(1); syscall(SYS_futex, (int*)s, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void hand_to(int n) { fpost(&thr[n].sem); }

// ---- per-region policy ----------------------------------------------------------------------
enum Mode { M_SERIAL, M_ORDER, M_RAND, M_PCT, M_CONFLICT, M_STALL, M_EXPLICIT };
static Mode mode; static double mean; static double conf_p; static int stall_victim;
static std::vector<uint64_t> pct_pts; static size_t pct_i; static int pct_low;
static std::vector<SchedEvent> ev_region; // explicit events of this region

static uint64_t geom(double m) { double u = rng_sched->unit(); double v = -log(1.0 - u) * m; if (v < 1) v = 1; if (v > 1e12) v = 1e12; return (uint64_t)v; }

static Mode parse_mode(const std::string& s) {
  if (s == "order") return M_ORDER; if (s == "rand") return M_RAND; if (s == "pct") return M_PCT;
  if (s == "conflict") return M_CONFLICT; if (s == "stall") return M_STALL; if (s == "explicit") return M_EXPLICIT;
  return M_SERIAL;
}
static void set_budget(Thr* t) {
  switch (mode) {
    case M_RAND: case M_STALL: t->next = t->count + geom(mean); break;
    case M_CONFLICT: t->next = t->count + geom(mean * 50); break;
    case M_PCT: t->next = pct_i < pct_pts.size() ? t->count + (pct_pts[pct_i] > region_acc ? pct_pts[pct_i] - region_acc : 1) : ~0ull; break;
    case M_EXPLICIT: {
      t->next = ~0ull;
      for (auto& e : ev_region) if (e.kind == 'P' && e.tid == t->id && e.count > t->count && e.count < t->next) t->next = e.count;
      break; }
    default: t->next = ~0ull;
  }
}
static void begin_policy() {
  if (cfg.sched == "explicit") mode = M_EXPLICIT;
  else if (region < cfg.win_lo || region > cfg.win_hi) mode = M_SERIAL;
  else if (cfg.sched == "mix") {
    static const Mode ms[] = { M_ORDER, M_RAND, M_RAND, M_PCT, M_CONFLICT, M_CONFLICT, M_STALL };
    mode = ms[rng_sched->below(7)];
  } else mode = parse_mode(cfg.sched);
  mean = cfg.sched_mean; conf_p = cfg.sched_p;
  if (cfg.sched == "mix") { mean = pow(10.0, 1.5 + 3.5 * rng_sched->unit()); conf_p = pow(10.0, -3.0 * rng_sched->unit()); }
  static const char* names[] = { "serial", "order", "rand", "pct", "conflict", "stall", "explicit" };
  (*mode_hist)[names[mode]]++;
  if (mode == M_STALL) { stall_victim = (int)rng_sched->below(team_n); ++n_stall_regions; }
  if (mode == M_PCT) {
    pct_pts.clear(); pct_i = 0; pct_low = 0;
    for (int i = 0; i < cfg.sched_d; i++) pct_pts.push_back((uint64_t)pow(10.0, 1.0 + 5.0 * rng_sched->unit()));
    std::sort(pct_pts.begin(), pct_pts.end());
    std::vector<int> pr(team_n); for (int i = 0; i < team_n; i++) pr[i] = i + 1000;
    for (int i = team_n - 1; i > 0; i--) std::swap(pr[i], pr[rng_sched->below(i + 1)]);
    for (int i = 0; i < team_n; i++) thr[i].prio = pr[i];
  }
  if (mode == M_EXPLICIT) {
    ev_region.clear();
    for (auto& e : cfg.events) if (e.region == region) ev_region.push_back(e);
  }
}
// Which READY member runs next?  kind: P preemption point, B blocked, D done, S region start.
static int default_next(char kind, int me) {
  if (kind == 'P') return me;
  for (int i = 0; i < team_n; i++) if (thr[i].state == READY) return i;
  return -1;
}
static int decide(char kind, int me) {
  int dflt = default_next(kind, me);
  int ready[MAXT], n = 0;
  for (int i = 0; i < team_n; i++) if (thr[i].state == READY && !(kind == 'P' && i == me)) ready[n++] = i;
  if (n == 0) return dflt;
  int pick = dflt;
  switch (mode) {
    case M_SERIAL: break;
    case M_ORDER: if (kind != 'P') pick = ready[rng_sched->below(n)]; break;
    case M_RAND: case M_CONFLICT: pick = ready[rng_sched->below(n)]; break;
    case M_STALL: {
      int c[MAXT], k = 0; for (int i = 0; i < n; i++) if (ready[i] != stall_victim) c[k++] = ready[i];
      if (k) pick = c[rng_sched->below(k)]; else if (kind != 'P') pick = ready[0];
      break; }
    case M_PCT: {
      if (kind == 'P') { thr[me].prio = pct_low--; while (pct_i < pct_pts.size() && pct_pts[pct_i] <= region_acc) pct_i++; }
      int best = (kind == 'P') ? me : -1;
      for (int i = 0; i < n; i++) if (best < 0 || thr[ready[i]].prio > thr[best].prio) best = ready[i];
      pick = best; break; }
    case M_EXPLICIT: {
      uint64_t c = (kind == 'S') ? 0 : thr[me].count;
      for (auto& e : ev_region) if (e.kind == kind && e.tid == me && e.count == c) {
        if (e.next < team_n && thr[e.next].state == READY) pick = e.next;
        break;
      }
      break; }
  }
  if (pick != dflt) {
    uint64_t c = (kind == 'S') ? 0 : thr[me].count;
    sched_hash = (sched_hash ^ (region * 1315423911u + c * 31 + me * 7 + pick + kind)) * 0x100000001B3ull;
    if (cfg.record) { Guard g; rec->push_back({region, me, c, pick, kind}); }
  }
  return pick;
}
static void switch_from(int me, int n) {
  ++n_switches; mix(((uint64_t)n << 56) ^ (region << 24) ^ thr[me].count);
  hand_to(n); fwait(&thr[me].sem); set_budget(&thr[me]);
}
static void deadlock() { event("deadlock region=%lu", (unsigned long)region); finish("deadlock", 99); }

static void preempt(Thr* t) {
  if (t->nest > 1) { set_budget(t); return; }
  int n = decide('P', t->id);
  if (n != t->id) { ++n_preempt; switch_from(t->id, n); }
  else set_budget(t);
}
static void block(Thr* t, void* on) {
  t->state = BLOCKED; t->waiting_on = on; ++n_blocked;
  int n = decide('B', t->id);
  if (n < 0) deadlock();
  switch_from(t->id, n);
}
static void unblock_all(void* on) { for (int i = 0; i < team_n; i++) if (thr[i].state == BLOCKED && thr[i].waiting_on == on) thr[i].state = READY; }
// A thread that gives its turn away: the next ready member runs (round robin, so that waiting
// by yielding ends whenever the awaited member can run), and the turn costs time.
void sched_yield_point() {
  steps += 2000; if (steps >= step_limit) { Guard g; io_step_check(); }
  if (!g_par || in_sim) return;
  Guard g; Thr* t = &thr[my_tid]; ++region_acc; ++t->count;
  if (t->nest > 1) return;
  for (int i = 1; i < team_n; i++) { int n = (t->id + i) % team_n; if (thr[n].state == READY) { switch_from(t->id, n); return; } }
}
void sched_point() { if (g_par) { Guard g; Thr* t = &thr[my_tid]; ++region_acc; if (++t->count >= t->next) preempt(t); } }

// ---- race detector ----------------------------------------------------------------------
struct Cell { uint32_t rid; uint32_t wpc, rpc; uint8_t ws, rs; uint16_t pad; uint16_t w[RT], r[RT]; uint8_t wm[RT], rm[RT]; }; // ws/rs: members that wrote/read
extern uintptr_t arena_lo, arena_used;
static Cell* cells;                 // direct-mapped over the arena
static const size_t HCELLS = 1 << 15;
static Cell hcell[HCELLS]; static uintptr_t hkey[HCELLS]; static uint32_t hrid[HCELLS];
struct Race { uintptr_t pc1, pc2; char k1, k2; int t1, t2; uint64_t region; };
static std::vector<Race>* races;
static uint64_t n_races = 0, n_par_access = 0, n_conflict_acc = 0;
static uint32_t rid32 = 0;

static Cell* cell_of(uintptr_t g) {
  uintptr_t off = (g << 3) - arena_lo;
  if (off < (16ull << 30)) {
    Cell* c = &cells[off >> 3];
    if (c->rid != rid32) { memset(c, 0, sizeof *c); c->rid = rid32; }
    return c;
  }
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 49;
  for (size_t i = 0; i < 64; i++) {
    size_t k = (h + i) & (HCELLS - 1);
    if (hrid[k] != rid32) { hrid[k] = rid32; hkey[k] = g; memset(&hcell[k], 0, sizeof(Cell)); hcell[k].rid = rid32; return &hcell[k]; }
    if (hkey[k] == g) return &hcell[k];
  }
  return 0;
}
void race_forget(uintptr_t a, size_t n) { uintptr_t o = (a - arena_lo) >> 3; for (size_t i = 0; i < (n + 7) / 8; i++) if (cells[o + i].rid == rid32) cells[o + i].rid = 0; }
static void report_race(Cell* c, int u, int t, char k1, char k2, uintptr_t pc) {
  ++n_races; Guard g;
  uintptr_t p1 = k1 == 'W' ? c->wpc : c->rpc;
  for (auto& r : *races) if (r.pc1 == p1 && r.pc2 == pc && r.k1 == k1 && r.k2 == k2) return;
  if (races->size() < 64) races->push_back({p1, pc, k1, k2, u, t, region});
}
static inline __attribute__((always_inline)) void race_granule(Thr* T, uintptr_t g, uint8_t mask, bool write, uintptr_t pc, bool& conflict) {
  int t = T->id; if (t >= RT) return;
  Cell* c;
  uintptr_t off = (g << 3) - arena_lo;
  if (off < (16ull << 30)) { c = &cells[off >> 3]; if (c->rid != rid32) { memset(c, 0, sizeof *c); c->rid = rid32; } }
  else { c = cell_of(g); if (!c) return; }
  uint8_t me = (uint8_t)(1u << t), others = write ? (uint8_t)((c->ws | c->rs) & ~me) : (uint8_t)(c->ws & ~me);
  if (__builtin_expect(others, 0)) {
    for (int u = 0; u < RT; u++) if (others >> u & 1) {
      if (c->w[u] && (c->wm[u] & mask)) { conflict = true; if (c->w[u] > T->vc[u]) report_race(c, u, t, 'W', write ? 'W' : 'R', pc); }
      if (write && c->r[u] && (c->rm[u] & mask)) { conflict = true; if (c->r[u] > T->vc[u]) report_race(c, u, t, 'R', 'W', pc); }
    }
  }
  uint16_t now = T->vc[t];
  if (write) {
    if (c->w[t] != now) { c->w[t] = now; c->wm[t] = 0; }
    c->wm[t] |= mask; c->ws |= me; c->wpc = (uint32_t)pc;
  } else {
    if (c->r[t] != now) { c->r[t] = now; c->rm[t] = 0; }
    c->rm[t] |= mask; c->rs |= me; c->rpc = (uint32_t)pc;
  }
}
static inline void race_range(Thr* T, uintptr_t a, size_t size, bool write, uintptr_t pc, bool& conflict) {
  if (__builtin_expect((a & 7) + size <= 8, 1)) { race_granule(T, a >> 3, (uint8_t)(((1u << size) - 1) << (a & 7)), write, pc, conflict); return; }
  uintptr_t e = a + size;
  while (a < e) {
    uintptr_t g = a >> 3; int o = a & 7; int l = (int)std::min<uintptr_t>(8 - o, e - a);
    race_granule(T, g, (uint8_t)(((1u << l) - 1) << o), write, pc, conflict);
    a += l;
  }
}
static void vc_acquire(Thr* t, uint16_t* v) { for (int i = 0; i < MAXT; i++) if (v[i] > t->vc[i]) t->vc[i] = v[i]; }
static void vc_release(Thr* t, uint16_t* v) {
  for (int i = 0; i < MAXT; i++) if (t->vc[i] > v[i]) v[i] = t->vc[i];
  if (t->vc[t->id] < 65535) t->vc[t->id]++;
}
struct Sync { int owner; uint16_t vc[MAXT]; Sync() : owner(-1) { memset(vc, 0, sizeof vc); } };
static std::unordered_map<uintptr_t, Sync>* syncs;
static Sync& sync_of(const void* p) { return (*syncs)[(uintptr_t)p]; }

// ---- the memory-access callback ------------------------------------------------------------
extern uint8_t* heap_shadow;
void heap_bad(uintptr_t a, size_t size, bool write, uintptr_t pc);
static void step_hit() { Guard g; io_step_check(); }

static inline void heap_check(uintptr_t a, size_t size, bool write, uintptr_t pc) {
  uintptr_t off = a - arena_lo;
  if (off >= (16ull << 30)) return;
  uint8_t k = heap_shadow[off >> 3];
  if (__builtin_expect(k != 0, 0)) { if (!(k < 8 && (off & 7) + size <= k)) { heap_bad(a, size, write, pc); return; } }
  if (((off & 7) + size) > 8) {
    uintptr_t l = off + size - 1; uint8_t q = heap_shadow[l >> 3];
    if (q != 0 && !(q < 8 && (l & 7) + 1 <= q)) heap_bad(a, size, write, pc);
  }
}
static inline __attribute__((always_inline)) void par_access(uintptr_t a, size_t size, bool write, uintptr_t pc) {
  Thr* t = &thr[my_tid];
  ++region_acc; ++t->count; ++n_par_access;
  bool stop = t->count >= t->next;
  bool conflict = false;
  bool own = a >= t->stk_lo && a < t->stk_hi && (t->id != 0 || a < master_sp);
  if (!own && in_sim == 0) {
    ++in_sim; race_range(t, a, size, write, pc, conflict); --in_sim;
    if (conflict) { ++n_conflict_acc; if (mode == M_CONFLICT && rng_sched->unit() < conf_p) stop = true; }
  }
  if (stop && in_sim == 0) { ++in_sim; preempt(t); --in_sim; }
}
static inline void acc(const void* p, size_t size, bool write, uintptr_t pc) {
  uintptr_t a = (uintptr_t)p;
  if (__builtin_expect(++steps >= step_limit, 0)) step_hit();
  if (__builtin_expect(g_par, 0)) par_access(a, size, write, pc);
  heap_check(a, size, write, pc);
}
static void acc_range(const void* p, size_t size, bool write, uintptr_t pc) {
  if (!size) return;
  uintptr_t a = (uintptr_t)p;
  if (++steps >= step_limit) step_hit();
  if (g_par) par_access(a, size, write, pc);
  for (uintptr_t x = a & ~7ull; x < a + size; x += 8) {
    uintptr_t lo = std::max(x, a), hi = std::min<uintptr_t>(x + 8, a + size);
    heap_check(lo, hi - lo, write, pc);
  }
}

// ---- threads ---------------------------------------------------------------------------------
static void stack_bounds(Thr* t) {
  pthread_attr_t at; void* lo; size_t sz;
  if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); t->stk_lo = (uintptr_t)lo; t->stk_hi = (uintptr_t)lo + sz; pthread_attr_destroy(&at); }
}
static void member_done(Thr* t) {
  Guard g;
  t->state = DONE;
  int n = decide('D', t->id);
  if (n >= 0) { ++n_switches; mix(((uint64_t)n << 56) ^ (region << 24) ^ t->count ^ 0xD0); hand_to(n); return; }
  for (int i = 0; i < team_n; i++) if (thr[i].state == BLOCKED) deadlock();
  if (t->id != 0) hand_to(0);
}
static void* worker(void* arg) {
  Thr* t = (Thr*)arg; my_tid = t->id; is_worker = 1; ++in_sim; stack_bounds(t); alt_stack(); --in_sim;
  for (;;) {
    fwait(&t->sem);
    { Guard g; set_budget(t); }
    t->fn(t->data);
    member_done(t);
  }
  return 0;
}
static void ensure_threads(int n) {
  while (nthr_created < n) {
    Thr* t = &thr[nthr_created]; t->id = nthr_created; t->sem = 0; t->state = IDLE;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20);
    if (pthread_create(&t->th, &at, worker, t)) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(97); }
    nthr_created++;
  }
}
// worksharing constructs
struct Work { long next, end, incr, chunk; bool set; };
static std::map<uint64_t, Work>* works;
static std::map<uint64_t, int>* singles;
static uint64_t barrier_count; static uint16_t barrier_vc[MAXT]; static uint64_t barrier_gen; 

static void run_region(void (*fn)(void*), void* data, int want) {
  Guard* g = new (malloc(sizeof(Guard))) Guard();
  if (want <= 0) want = nthreads_var > 0 ? nthreads_var : cfg.cpus;
  if (want > MAXT) want = MAXT;
  int n = want;
  if (!g_par) {
    if (cfg.team == "cap" && n > cfg.team_k) n = cfg.team_k;
    else if (cfg.team == "rand" && n > 1) { if (rng_team->unit() < 0.5) n = 1 + (int)rng_team->below(n); }
    if (n < 1) n = 1;
    if (n < want) { ++n_short_teams; count_fault("short_team"); }
  }
  (*team_hist)[n]++;
  if (g_par || n == 1) {
    Thr* t = &thr[my_tid]; t->nest++;
    int save = team_n; bool outer = !g_par; if (outer) team_n = 1;
    g->~Guard(); free(g);
    fn(data);
    if (outer) team_n = save;
    t->nest--;
    return;
  }
  ensure_threads(n);
  ++region; ++n_regions; ++rid32; region_acc = 0; team_n = n; if ((uint64_t)n > max_team) max_team = n;
  works->clear(); singles->clear(); barrier_count = 0; syncs->clear();
  memset(barrier_vc, 0, sizeof barrier_vc);
  for (int i = 0; i < n; i++) {
    Thr* t = &thr[i]; t->fn = fn; t->data = data; t->state = READY; t->count = 0; t->next = ~0ull; t->waiting_on = 0; t->nest = 1;
    t->single_seq = t->loop_seq = 0;
    memset(t->vc, 0, sizeof t->vc); t->vc[i] = 1;
  }
  begin_policy();
  mix(0xBE61 ^ (region << 8) ^ n);
  master_sp = (uintptr_t)__builtin_frame_address(0);
  g_par = 1;
  set_budget(&thr[0]);
  int first = decide('S', 0);
  if (first > 0) switch_from(0, first);
  g->~Guard(); free(g);
  fn(data);
  ++in_sim;
  Thr* t0 = &thr[0]; t0->state = DONE;
  int nx = decide('D', 0);
  bool all = true; for (int i = 1; i < n; i++) if (thr[i].state != DONE) all = false;
  if (!all) {
    if (nx < 0) deadlock();
    ++n_switches; mix(((uint64_t)nx << 56) ^ (region << 24) ^ t0->count ^ 0xD0);
    hand_to(nx); fwait(&t0->sem);
  }
  g_par = 0; team_n = 1; t0->nest = 0;
  for (int i = 0; i < n; i++) thr[i].nest = 0;
  --in_sim;
}

void sched_init() {
  rng_sched = new Rng(cfg.seed ^ 0x5C4ED);
  rng_team = new Rng(cfg.seed ^ 0x7EA3);
  rec = new std::vector<SchedEvent>(); races = new std::vector<Race>();
  syncs = new std::unordered_map<uintptr_t, Sync>(); works = new std::map<uint64_t, Work>(); singles = new std::map<uint64_t, int>();
  team_hist = new std::map<int, uint64_t>(); mode_hist = new std::map<std::string, uint64_t>();
  cells = (Cell*)mmap(0, (16ull << 30) / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (cells == MAP_FAILED) { perror("sim: mmap cells"); _exit(97); }
  thr[0].id = 0; thr[0].sem = 0; my_tid = 0; stack_bounds(&thr[0]);
}
void sched_report(FILE* f) {
  fprintf(f, "regions %lu\nswitches %lu\npreemptions %lu\nblocked %lu\npar_accesses %lu\nconflict_accesses %lu\nshort_teams %lu\nstall_regions %lu\nmax_team %lu\nsched_hash %016lx\nraces %lu\n",
    (unsigned long)n_regions, (unsigned long)n_switches, (unsigned long)n_preempt, (unsigned long)n_blocked, (unsigned long)n_par_access, (unsigned long)n_conflict_acc,
    (unsigned long)n_short_teams, (unsigned long)n_stall_regions, (unsigned long)max_team, (unsigned long)sched_hash, (unsigned long)n_races);
  if (races) for (auto& r : *races) fprintf(f, "race %c %lx %c %lx t%d t%d region=%lu\n", r.k1, (unsigned long)r.pc1, r.k2, (unsigned long)r.pc2, r.t1, r.t2, (unsigned long)r.region);
  if (rec) for (auto& e : *rec) fprintf(f, "sev %lu %d %lu %d %c\n", (unsigned long)e.region, e.tid, (unsigned long)e.count, e.next, e.kind);
  if (team_hist) for (auto& k : *team_hist) fprintf(f, "team %d %lu\n", k.first, (unsigned long)k.second);
  if (mode_hist) for (auto& k : *mode_hist) fprintf(f, "mode %s %lu\n", k.first.c_str(), (unsigned long)k.second);
}

// ---- locks -----------------------------------------------------------------------------------
static void lock(const void* p) {
  if (!g_par) return;
  Guard g; Thr* t = &thr[my_tid];
  ++region_acc; if (++t->count >= t->next) preempt(t);
  while (sync_of(p).owner >= 0 && sync_of(p).owner != t->id) block(t, (void*)p);
  Sync& s = sync_of(p); s.owner = t->id; vc_acquire(t, s.vc);
}
static void unlock(const void* p) {
  if (!g_par) return;
  Guard g; Thr* t = &thr[my_tid];
  Sync& s = sync_of(p); vc_release(t, s.vc); s.owner = -1; unblock_all((void*)p);
  ++region_acc; if (++t->count >= t->next) preempt(t);
}
static void atomic_sync(const void* p) {
  ++steps;
  if (!g_par || in_sim) return;
  Guard g; Thr* t = &thr[my_tid];
  ++region_acc; if (++t->count >= t->next) preempt(t);
  Sync& s = sync_of((const char*)p + 1); vc_acquire(t, s.vc); vc_release(t, s.vc);
}
static void barrier() {
  if (!g_par || thr[my_tid].nest > 1) return;
  Guard g; Thr* t = &thr[my_tid];
  vc_release(t, barrier_vc);
  if (++barrier_count == (uint64_t)team_n) {
    barrier_count = 0; ++barrier_gen;
    for (int i = 0; i < team_n; i++) vc_acquire(&thr[i], barrier_vc);
    unblock_all(&barrier_count);
    int n = decide('B', t->id); // anyone may run first after the barrier
    if (n >= 0 && n != t->id) switch_from(t->id, n);
  } else block(t, &barrier_count);
}
} // namespace sim

using namespace sim;
extern "C" {
// ---- libgomp entry points ----------------------------------------------------------------------
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_region(fn, data, (int)n); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
static char crit_anon, crit_atomic, crit_ordered;
void GOMP_critical_start(void) { lock(&crit_anon); }
void GOMP_critical_end(void) { unlock(&crit_anon); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&crit_atomic); }
void GOMP_atomic_end(void) { unlock(&crit_atomic); }
void GOMP_ordered_start(void) { lock(&crit_ordered); }
void GOMP_ordered_end(void) { unlock(&crit_ordered); }
bool GOMP_single_start(void) {
  if (!g_par || thr[my_tid].nest > 1) return true;
  Guard g; Thr* t = &thr[my_tid]; uint64_t k = ++t->single_seq;
  if (singles->count(k)) return false;
  (*singles)[k] = 1; return true;
}
// dynamic / guided / runtime loops
static bool loop_next(long* s, long* e) {
  Guard g; Thr* t = &thr[my_tid];
  Work& w = (*works)[t->loop_seq];
  if (g_par) { ++region_acc; if (++t->count >= t->next) preempt(t); }
  Work& v = (*works)[t->loop_seq];
  if (v.incr > 0 ? v.next >= v.end : v.next <= v.end) return false;
  (void)w;
  *s = v.next; long n = v.next + v.chunk * v.incr;
  if (v.incr > 0 ? (n > v.end || n < v.next) : (n < v.end || n > v.next)) n = v.end;
  *e = n; v.next = n; return true;
}
static void loop_set(uint64_t k, long s, long e, long incr, long chunk) {
  Work& w = (*works)[k]; if (w.set) return;
  w.next = s; w.end = e; w.incr = incr; w.chunk = chunk < 1 ? 1 : chunk; w.set = true;
}
static bool loop_start(long s, long e, long incr, long chunk, long* is, long* ie) {
  { Guard g; Thr* t = &thr[my_tid]; ++t->loop_seq; if (!g_par || t->nest > 1) works->erase(t->loop_seq); loop_set(t->loop_seq, s, e, incr, chunk); }
  return loop_next(is, ie);
}
#define LOOP(NAME) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, is, ie); } \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned);
struct LoopReg { long s, e, i, c; void (*fn)(void*); void* d; };
static void loop_member(void* p) {
  LoopReg* r = (LoopReg*)p;
  { Guard g; Thr* t = &thr[my_tid]; ++t->loop_seq; if (!g_par || t->nest > 1) works->erase(t->loop_seq); loop_set(t->loop_seq, r->s, r->e, r->i, r->c); }
  r->fn(r->d);
}
static void par_loop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) {
  LoopReg r = { s, e, i, c, fn, d }; run_region(loop_member, &r, (int)n);
}
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define PLOOP(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(fn, d, n, s, e, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
#define RLOOP(NAME) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); } \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
typedef unsigned long long ull;
#define ULOOP(NAME) \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return loop_start((long)s, (long)e, up ? (long)i : -(long)i, (long)c, (long*)is, (long*)ie); } \
  bool GOMP_loop_ull_##NAME##_next(ull* s, ull* e) { return loop_next((long*)s, (long*)e); }
ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
#define URLOOP(NAME) \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { return loop_start((long)s, (long)e, up ? (long)i : -(long)i, 1, (long*)is, (long*)ie); } \
  bool GOMP_loop_ull_##NAME##_next(ull* s, ull* e) { return loop_next((long*)s, (long*)e); }
URLOOP(runtime) URLOOP(nonmonotonic_runtime) URLOOP(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { par_loop(fn, d, n, 1, (long)cnt + 1, 1, 1); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (cpy) { char* b = (char*)alloca(size + align); char* p = (char*)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1)); cpy(p, data); fn(p); }
  else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { sched_yield_point(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
int omp_get_thread_num(void) { return (g_par && thr[my_tid].nest <= 1) ? my_tid : 0; }
int omp_get_num_threads(void) { return (g_par && thr[my_tid].nest <= 1) ? team_n : 1; }
int omp_get_max_threads(void) { return nthreads_var > 0 ? nthreads_var : cfg.cpus; }
void omp_set_num_threads(int n) { if (!g_par) nthreads_var = n > 0 ? n : 1; }
int omp_get_num_procs(void) { return cfg.cpus; }
int omp_in_parallel(void) { return g_par; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return cfg.team != "full"; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_level(void) { return g_par ? 1 : 0; }
int omp_get_active_level(void) { return g_par ? 1 : 0; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
void omp_set_schedule(int, int) {}
double omp_get_wtime(void) { return now_ns() * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void**) {} void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock(l); } void omp_unset_lock(void** l) { unlock(l); }
int omp_test_lock(void** l) { { Guard g; if (g_par && sync_of(l).owner >= 0) return 0; } lock(l); return 1; }
void omp_init_nest_lock(void**) {} void omp_destroy_nest_lock(void**) {}
void omp_set_nest_lock(void** l) { lock(l); } void omp_unset_nest_lock(void** l) { unlock(l); }

// ---- pthread mutexes and static-initialisation guards used by the code under test --------------
typedef int (*mfn)(pthread_mutex_t*);
static mfn real_of(const char* n) { return (mfn)dlsym(RTLD_NEXT, n); }
int pthread_mutex_lock(pthread_mutex_t* m) {
  static mfn r, tr; if (!r) { r = real_of("pthread_mutex_lock"); tr = real_of("pthread_mutex_trylock"); }
  if (!g_par || in_sim) return r(m);
  sched_point();
  while (tr(m)) { Guard g; block(&thr[my_tid], m); }
  Guard g; vc_acquire(&thr[my_tid], sync_of(m).vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static mfn r; if (!r) r = real_of("pthread_mutex_unlock");
  int rc = r(m);
  if (g_par && !in_sim) { { Guard g; vc_release(&thr[my_tid], sync_of(m).vc); unblock_all(m); } sched_point(); }
  return rc;
}
int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* b = (uint8_t*)g;
  while (!b[0]) {
    if (!b[1]) { b[1] = 1; return 1; }
    if (!g_par) return 1;
    Guard gg; block(&thr[my_tid], g);
  }
  if (g_par && !in_sim) { Guard gg; vc_acquire(&thr[my_tid], sync_of(g).vc); }
  return 0;
}
void __cxa_guard_release(uint64_t* g) {
  uint8_t* b = (uint8_t*)g; b[0] = 1; b[1] = 0;
  if (g_par && !in_sim) { Guard gg; vc_release(&thr[my_tid], sync_of(g).vc); unblock_all(g); }
}
void __cxa_guard_abort(uint64_t* g) { ((uint8_t*)g)[1] = 0; if (g_par) { Guard gg; unblock_all(g); } }

// ---- libtsan entry points -----------------------------------------------------------------------
#define PC ((uintptr_t)__builtin_return_address(0))
unsigned char sim_cov[8 << 20]; // basic blocks reached, by address
void __sanitizer_cov_trace_pc(void) { sim_cov[((uintptr_t)__builtin_return_address(0) - 0x400000) & ((8 << 20) - 1)] = 1; if (__builtin_expect(++steps >= step_limit, 0)) step_hit(); if (__builtin_expect(g_par && in_sim == 0, 0)) { Thr* t = &thr[my_tid]; ++region_acc; if (++t->count >= t->next) { ++in_sim; preempt(t); --in_sim; } } }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(N) \
  void __tsan_read##N(void* p) { acc(p, N, false, PC); } \
  void __tsan_write##N(void* p) { acc(p, N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { acc(p, N, false, PC); } \
  void __tsan_volatile_write##N(void* p) { acc(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { acc(p, N, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc_range(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { acc_range(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
#define ATOMIC(BITS, T) \
  T __tsan_atomic##BITS##_load(const volatile T* p, int) { atomic_sync((const void*)p); return *p; } \
  void __tsan_atomic##BITS##_store(volatile T* p, T v, int) { atomic_sync((const void*)p); *p = v; } \
  T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int) { atomic_sync((const void*)p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int) { atomic_sync((const void*)p); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int) { atomic_sync((const void*)p); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int) { atomic_sync((const void*)p); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int) { atomic_sync((const void*)p); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int) { atomic_sync((const void*)p); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int) { atomic_sync((const void*)p); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { atomic_sync((const void*)p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { atomic_sync((const void*)p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T c, T v, int, int) { atomic_sync((const void*)p); T o = *p; if (o == c) *p = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
