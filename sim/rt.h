// Deterministic simulator for vc_mesh: shared declarations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>

extern "C" unsigned char sim_cov[8 << 20];
namespace sim {

// ---- seeded randomness ------------------------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---- configuration (one scenario file) --------------------------------------------------
struct SchedEvent { uint64_t region; int tid; uint64_t count; int next; char kind; };

struct Fault {
  std::string kind;     // see io.cpp / heap.cpp
  std::string path;     // "*" = any
  uint64_t n;           // operation index / byte count / step
  int64_t arg;
  int err;
};

struct Config {
  uint64_t seed = 1;
  std::vector<std::string> argv;
  std::string outdir;
  int cpus = 8;
  // team delivery
  std::string team = "full";    // full | cap | rand
  int team_k = 0;
  // scheduler
  std::string sched = "serial"; // serial | order | rand | pct | conflict | stall | explicit | fixed
  double sched_mean = 1000;     // mean accesses between preemptions
  double sched_p = 0.1;         // conflict-mode preemption probability
  int sched_d = 3;              // pct depth
  uint64_t win_lo = 0, win_hi = ~0ull; // regions in which the policy is applied
  std::vector<SchedEvent> events;
  bool record = false;
  // clock
  int64_t clock_base = 1700000000;
  std::string clock = "steady"; // steady | skew | jumpy | backwards | frozen
  // heap
  int heap_fill = 0;            // -1: random bytes, else byte value
  uint64_t fill_lo = 0, fill_hi = ~0ull; // only the contents of these allocations are heap_fill, others zero
  int heap_layout = 0;          // extra random padding between blocks
  uint64_t alloc_limit = 0;     // live bytes above which new fails
  uint64_t alloc_fail_at = 0;   // n-th allocation fails (1-based)
  int alloc_fail_sticky = 0;
  int alloc_sites = 0;          // report which call sites allocate, and when
  // io
  std::vector<std::pair<std::string, std::string> > files; // sim path, host path
  std::vector<Fault> faults;
  double io_short = 0, io_eintr = 0;
  // limits
  uint64_t max_steps = 0;
  double scale = 1.0;
  size_t batch = 0;
  int dump_fs = 1;
  int cov = 0;                  // write the basic blocks reached
};
extern Config cfg;

// ---- in-simulator guard: allocations made by the simulator itself use the C heap ---------
extern __thread int in_sim;
struct Guard { Guard() { ++in_sim; } ~Guard() { --in_sim; } };

// ---- events, counters -------------------------------------------------------------------
extern uint64_t steps;
extern uint64_t step_limit;
extern uint64_t trace_hash;
inline void mix(uint64_t v) { trace_hash = (trace_hash ^ v) * 0x100000001B3ull; trace_hash ^= trace_hash >> 29; }
void count_fault(const char* kind, uint64_t n = 1);
void event(const char* fmt, ...);
void finish(const char* status, int rc);   // dumps everything and leaves the process
void dump_results(const char* status, int rc);
void load_config(const char* path);

// scheduler
void sched_init();
void sched_report(FILE* f);
bool in_parallel();
int cur_tid();
uint64_t cur_region();
void sched_point();
void sched_yield_point();
void race_forget(uintptr_t a, size_t n); // recycled memory starts a new history
// heap
void heap_init();
void heap_report(FILE* f);
// io
void io_init();
void io_report(FILE* f);
void io_dump(const std::string& dir);
uint64_t io_hash();
void io_step_check();
void console_hooks();
extern std::string* console_ptr; // made before static initialisers run: the log is opened by one
#define console_text (*console_ptr)
extern bool stdin_blocked;
// clock
uint64_t now_ns();
uint64_t elapsed_ns();
FILE* host_fopen(const char*, const char*);
void alt_stack();
}
