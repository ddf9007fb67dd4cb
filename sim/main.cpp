// Scenario loading, process life cycle, result dump.
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <ucontext.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <execinfo.h>

int vc_main(int argc, char** argv);

namespace sim {
Config cfg __attribute__((init_priority(101)));
__thread int in_sim = 0;
uint64_t steps = 0, step_limit = ~0ull, trace_hash = 0xcbf29ce484222325ull;
static std::map<std::string, uint64_t>* faults_done;
static std::vector<std::string>* events;
static uint64_t n_events = 0;
bool running = false; static bool dumped = false;

void count_fault(const char* kind, uint64_t n) { Guard g; (*faults_done)[kind] += n; }
void event(const char* fmt, ...) {
  Guard g; char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  ++n_events; for (const char* p = b; *p; p++) mix((unsigned char)*p);
  if (events->size() < 200) events->push_back(b);
}
void load_config(const char* path) {
  std::ifstream in(path); if (!in) { fprintf(stderr, "sim: no scenario %s\n", path); _exit(97); }
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k; if (!(is >> k) || k[0] == '#') continue;
    std::string rest; std::getline(is, rest); size_t p = rest.find_first_not_of(' '); rest = p == std::string::npos ? "" : rest.substr(p);
    std::istringstream v(rest);
    if (k == "seed") v >> cfg.seed; else if (k == "arg") cfg.argv.push_back(rest); else if (k == "out") cfg.outdir = rest;
    else if (k == "cpus") v >> cfg.cpus; else if (k == "team") { v >> cfg.team >> cfg.team_k; }
    else if (k == "sched") v >> cfg.sched; else if (k == "mean") v >> cfg.sched_mean; else if (k == "p") v >> cfg.sched_p; else if (k == "d") v >> cfg.sched_d;
    else if (k == "win") v >> cfg.win_lo >> cfg.win_hi; else if (k == "record") cfg.record = true;
    else if (k == "sev") { SchedEvent e; v >> e.region >> e.tid >> e.count >> e.next >> e.kind; cfg.events.push_back(e); }
    else if (k == "clock") v >> cfg.clock; else if (k == "clock_base") v >> cfg.clock_base;
    else if (k == "heap_fill") v >> cfg.heap_fill; else if (k == "fill") v >> cfg.fill_lo >> cfg.fill_hi; else if (k == "heap_layout") v >> cfg.heap_layout;
    else if (k == "alloc_limit") v >> cfg.alloc_limit; else if (k == "alloc_fail_at") v >> cfg.alloc_fail_at; else if (k == "alloc_fail_sticky") v >> cfg.alloc_fail_sticky; else if (k == "alloc_sites") v >> cfg.alloc_sites;
    else if (k == "file") { std::string a, b; v >> a >> b; cfg.files.push_back(std::make_pair(a, b)); }
    else if (k == "fault") { Fault f; f.n = 0; f.arg = 0; f.err = 0; v >> f.kind >> f.path >> f.n >> f.arg >> f.err; cfg.faults.push_back(f); }
    else if (k == "io_short") v >> cfg.io_short; else if (k == "io_eintr") v >> cfg.io_eintr;
    else if (k == "batch") v >> cfg.batch; else if (k == "cov") v >> cfg.cov; else if (k == "max_steps") v >> cfg.max_steps; else if (k == "scale") v >> cfg.scale; else if (k == "dump_fs") v >> cfg.dump_fs;
    else { fprintf(stderr, "sim: unknown key %s\n", k.c_str()); _exit(97); }
  }
}
void dump_results(const char* status, int rc) {
  if (dumped) return; dumped = true; Guard g;
  FILE* f = host_fopen((cfg.outdir + "/result.txt").c_str(), "w");
  if (!f) { fprintf(stderr, "sim: cannot write results\n"); _exit(97); }
  fprintf(f, "status %s\nrc %d\nsteps %lu\nsim_ns %lu\n", status, rc, (unsigned long)steps, (unsigned long)elapsed_ns());
  sched_report(f); heap_report(f); io_report(f);
  for (auto& k : *faults_done) fprintf(f, "fault %s %lu\n", k.first.c_str(), (unsigned long)k.second);
  for (auto& e : *events) fprintf(f, "event %s\n", e.c_str());
  fprintf(f, "events %lu\ntrace_hash %016lx\nio_hash %016lx\nend 1\n", (unsigned long)n_events, (unsigned long)trace_hash, (unsigned long)io_hash());
  fclose(f);
  f = host_fopen((cfg.outdir + "/console.txt").c_str(), "w");
  if (f) { fwrite(console_text.data(), 1, console_text.size(), f); fclose(f); }
  if (cfg.cov) {
    f = host_fopen((cfg.outdir + "/cov.txt").c_str(), "w");
    for (size_t i = 0; f && i < sizeof sim_cov; i++) if (sim_cov[i]) fprintf(f, "%lx\n", (unsigned long)(i + 0x400000));
    if (f) fclose(f);
  }
  if (cfg.dump_fs) io_dump(cfg.outdir);
}
void finish(const char* status, int rc) { dump_results(status, rc); _exit(0); }

} extern "C" char __executable_start, etext; namespace sim {
static void on_signal(int sig, siginfo_t* si, void* uc) {
  ++in_sim;
  char b[64]; snprintf(b, sizeof b, "signal-%d", sig);
  ucontext_t* u = (ucontext_t*)uc;
  // only addresses that are the same in every execution: the program is at a fixed place, libraries and the stack are not
  uintptr_t pc = u->uc_mcontext.gregs[REG_RIP], at = sig == SIGSEGV ? (uintptr_t)si->si_addr : 0;
  event("signal %d pc=%lx addr=%lx", sig, (unsigned long)(pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&etext ? pc : 0), (unsigned long)(at < (1 << 20) ? at : 0));
  finish(b, 128 + sig);
}
void alt_stack() {
  stack_t ss; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, 0);
}
static void at_exit(int rc, void*) { if (running) { dump_results("exit", rc); _exit(0); } }

struct Boot {
  Boot() {
    in_sim = 1;
    int n = 0; char buf[8192];
    FILE* f = fopen("/proc/self/cmdline", "r"); n = (int)fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[n] = 0;
    const char* a0 = buf; const char* a1 = a0 + strlen(a0) + 1; if (a1 >= buf + n) { fprintf(stderr, "usage: vc_sim SCENARIO\n"); _exit(97); }
    load_config(a1);
    faults_done = new std::map<std::string, uint64_t>(); events = new std::vector<std::string>();
    cpu_set_t set, cur; sched_getaffinity(0, sizeof cur, &cur); CPU_ZERO(&set);
    int cpus[1024], k = 0; for (int i = 0; i < 1024; i++) if (CPU_ISSET(i, &cur)) cpus[k++] = i;
    if (k > 1) { CPU_SET(sched_getcpu(), &set); sched_setaffinity(0, sizeof set, &set); }
    if (cfg.max_steps) step_limit = cfg.max_steps;
    sched_init(); heap_init(); io_init();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    alt_stack();
    int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }; for (int s : sg) sigaction(s, &sa, 0);
    on_exit(at_exit, 0);
    in_sim = 0;
  }
};
static Boot boot __attribute__((init_priority(101)));
} // namespace sim
using namespace sim;
int main(int, char**) {
  static std::vector<std::string>* a; std::vector<char*> av; 
  { Guard g; console_hooks(); a = new std::vector<std::string>(cfg.argv); av.push_back((char*)"vc_mesh"); for (auto& s : *a) av.push_back((char*)s.c_str()); av.push_back(0); }
  running = true;
  int rc = vc_main((int)av.size() - 1, av.data());
  event("main-returned %d", rc);
  return rc;
}
// hooks in /repo (VC_SIM_HOOKS): size of the Monte Carlo point clouds, number of interior spheres kept outside the tree
extern "C" size_t vc_sim_cloud_size(size_t n) { double m = (double)n * cfg.scale; return m < 100 ? 100 : (size_t)m; }
extern "C" size_t vc_sim_batch_size(size_t n) { return cfg.batch ? cfg.batch : n; }
