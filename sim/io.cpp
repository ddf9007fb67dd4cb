// The simulated disk, console and clock.  Every file the program opens lives in memory; the C
// library's open/read/write/close/rename calls (which libstdc++'s file streams use) end here.
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <math.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <memory>
#include <set>
#include <unordered_map>
#include <iostream>
#include <streambuf>

namespace sim {
template <class F> static F real(F, const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static decltype(&::name) r_##name = 0; if (!r_##name) { Guard g_; r_##name = real(r_##name, #name); }

struct Inode { std::string data; uint64_t initial = 0; };
typedef std::shared_ptr<Inode> Ip;
struct File { Ip ino; std::string path; uint64_t pos; int flags; FILE* fp; };
static std::map<std::string, Ip>* disk;
static std::map<std::string, std::string>* disk0;
static std::unordered_map<int, File>* fds;
static std::unordered_map<FILE*, int>* fps;
struct PStat { uint64_t opens, reads, writes, bytes, closes, failed; };
static std::map<std::string, PStat>* pstats;
static uint64_t n_ops = 0, n_open = 0, n_read = 0, n_write = 0, n_rename = 0, n_bytes_w = 0, n_console = 0;
static uint64_t iohash = 0xcbf29ce484222325ull;
static Rng* rng_io; static Rng* rng_clk;
static uint64_t extra_ns = 0;
static bool on = false;
struct JEnt { char k; Ip ino; std::string a, b; uint64_t off; };
static std::vector<JEnt>* journal; static bool journalling = false;
static std::vector<std::string>* oplog;
// complete earlier contents of files this run replaced again
static std::vector<std::pair<std::string, std::string>>* versions;
static void keep_version(const std::string& n) {
  if (cfg.dump_fs == 0 || !cfg.faults.empty()) return;
  auto it = disk->find(n); if (it == disk->end() || it->second->data.empty()) return;
  auto o = disk0->find(n); if (o != disk0->end() && o->second == it->second->data) return;
  if (versions->size() < 4096) versions->push_back(std::make_pair(n, it->second->data));
}
std::string* console_ptr = 0; bool stdin_blocked = false;

static std::string norm(const char* p) {
  std::string s(p); if (s.empty()) return s;
  if (s[0] != '/') s = "/work/" + s;
  std::vector<std::string> parts; size_t i = 0;
  while (i < s.size()) { size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string c = s.substr(i, j - i); i = j + 1;
    if (c.empty() || c == ".") continue; if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; } parts.push_back(c); }
  std::string o; for (auto& c : parts) o += "/" + c;
  if (o.compare(0, 6, "/work/") == 0) o = o.substr(6);
  return o;
}
static bool host_path(const std::string& n) {
  static const char* pre[] = { "/etc/", "/usr/", "/lib", "/proc/", "/dev/", "/sys/" };
  for (auto p : pre) if (n.compare(0, strlen(p), p) == 0) return true;
  return false;
}
static bool match(const Fault& f, const std::string& p) { return f.path == "*" || fnmatch(f.path.c_str(), p.c_str(), 0) == 0; }
static void ioh(char k, const std::string& p, uint64_t v) {
  auto h = [](uint64_t x) { iohash = (iohash ^ x) * 0x100000001B3ull; iohash ^= iohash >> 31; };
  h(k); for (char c : p) h((unsigned char)c); h(v); mix(iohash);
}
// lost: operations that had not been issued to the disk; torn: percentage of the last write that arrived;
// unordered: data that was never synchronised may be missing even though later changes of names are there
static void power_cut(uint64_t lost, int torn, uint64_t unordered) {
  std::map<std::string, Ip> d; std::map<Inode*, Ip> clone;
  auto cl = [&](const Ip& i) -> Ip { auto it = clone.find(i.get()); if (it != clone.end()) return it->second; Ip n(new Inode); clone[i.get()] = n; return n; };
  // initial files keep their identity through the first journal entry that names them
  for (auto& f : *disk0) { Ip n(new Inode); n->data = f.second; d[f.first] = n; }
  size_t m = journal->size() > lost ? journal->size() - lost : 0;
  std::map<Inode*, size_t> synced; std::map<Inode*, uint64_t> part; Rng rng(unordered);
  if (unordered) for (size_t i = 0; i < m; i++) { JEnt& e = (*journal)[i]; if (e.k == 's') synced[e.ino.get()] = i + 1; if (e.k == 'w' && !part.count(e.ino.get())) part[e.ino.get()] = rng.below(4); }
  bool gone = false;
  for (size_t i = 0; i < m; i++) {
    JEnt& e = (*journal)[i];
    if (unordered && e.k == 'w') {
      size_t from = synced.count(e.ino.get()) ? synced[e.ino.get()] : 0;
      if (i >= from) { uint64_t k = part[e.ino.get()]; bool keep = k == 0 ? false : k == 3 ? true : k == 1 ? rng.unit() < 0.5 : !gone && rng.unit() < 0.98; if (!keep) { if (k == 2) gone = true; count_fault("unsynced_data_lost"); continue; } }
    }
    if (e.k == 'c') d[e.a] = cl(e.ino);
    else if (e.k == 'b') { if (d.count(e.a)) clone[e.ino.get()] = d[e.a]; }
    else if (e.k == 't') { cl(e.ino)->data.resize(e.off); }
    else if (e.k == 'w') { std::string b = e.b; if (i + 1 == m && torn >= 0) b.resize(b.size() * (size_t)(torn % 100) / 100); Ip n = cl(e.ino); if (n->data.size() < e.off + b.size()) n->data.resize(e.off + b.size()); n->data.replace(e.off, b.size(), b); }
    else if (e.k == 'u') d.erase(e.a);
    else if (e.k == 'r') { if (d.count(e.a)) { d[e.b] = d[e.a]; d.erase(e.a); } }
  }
  *disk = d;
}
// one I/O operation: counts it, injects a crash if one is due
static void crash(const char* k) { count_fault(k); event("crash %s op=%lu step=%lu", k, (unsigned long)n_ops, (unsigned long)steps); finish("crash", 137); }
static void check_crash(char kind, File* f, const void* b, size_t n) {
  for (auto& x : cfg.faults) {
    if (x.kind == "crash_op" && n_ops == x.n) {
      if (kind == 'w' && x.arg > 0 && n > 1) { size_t k = (size_t)x.arg % n; f->ino->data.resize(std::max(f->ino->data.size(), (size_t)(f->pos + k))); f->ino->data.replace(f->pos, k, (const char*)b, k); count_fault("torn_write"); }
      crash("crash");
    }
    if (x.kind == "power" && n_ops == x.n) { power_cut((uint64_t)x.arg, x.err, 0); crash("power_loss"); }
    if (x.kind == "powerx" && n_ops == x.n) { power_cut((uint64_t)x.arg, -1, 1 + (uint64_t)x.err); crash("power_loss_unordered"); }
  }
}
static void op(char kind, const std::string& path, uint64_t v, File* f = 0, const void* b = 0, size_t n = 0) {
  ++n_ops; extra_ns += 2000; steps += 1; ioh(kind, path, v);
  for (auto& x : cfg.faults) if (x.kind == "stall" && match(x, path)) { extra_ns += x.n; count_fault("io_stall"); }
  check_crash(kind, f, b, n);
}
void io_step_check() {
  if (cfg.max_steps && steps >= cfg.max_steps) { event("step budget exhausted region=%lu", (unsigned long)cur_region()); finish("budget", 98); }
  uint64_t nl = cfg.max_steps ? cfg.max_steps : ~0ull;
  for (auto& x : cfg.faults) if (x.kind == "crash_step") { if (steps >= x.n) crash("crash"); if (x.n < nl) nl = x.n; }
  step_limit = nl;
}
static Fault* due(const char* kind, const std::string& path, uint64_t idx) {
  for (auto& x : cfg.faults) if (x.kind == kind && match(x, path) && (idx == x.n || (x.arg && idx > x.n))) return &x;
  return 0;
}
static uint64_t g_opens = 0, g_reads = 0, g_writes = 0, g_closes = 0;
static uint64_t disk_used() { uint64_t s = 0; std::set<Inode*> seen; for (auto& f : *disk) if (seen.insert(f.second.get()).second) s += f.second->data.size(); return s; }
static uint64_t cap_base = 0;

static int do_open(const char* path, int flags) {
  std::string p = norm(path); PStat& ps = (*pstats)[p]; ps.opens++; n_open++; ++g_opens;
  op('o', p, flags & 0xfff);
  if (Fault* f = due("open_fail", p, ps.opens)) { ps.failed++; count_fault("open_fail"); errno = f->err ? f->err : EACCES; event("open_fail %s", p.c_str()); return -1; }
  if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) if (Fault* f = due("create_fail", p, ps.opens)) { ps.failed++; count_fault("open_fail"); errno = f->err ? f->err : EACCES; event("create_fail %s", p.c_str()); return -1; }
  auto it = disk->find(p);
  if (it == disk->end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    Ip n(new Inode); (*disk)[p] = n; if (journalling) journal->push_back({'c', n, p, "", 0}); it = disk->find(p);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  else if (journalling) journal->push_back({'b', it->second, p, "", 0});
  if (flags & O_TRUNC) { keep_version(it->first); it->second->data.clear(); if (journalling) journal->push_back({'t', it->second, "", "", 0}); }
  int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
  if (fd < 0) return -1;
  File f; f.ino = it->second; f.path = p; f.pos = 0; f.flags = flags; f.fp = 0;
  (*fds)[fd] = f; return fd;
}
static ssize_t do_read(File& f, void* b, size_t n) {
  PStat& ps = (*pstats)[f.path]; ps.reads++; n_read++; ++g_reads;
  op('r', f.path, n);
  if ((f.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (Fault* x = due("read_fail", f.path, ps.reads)) { ps.failed++; count_fault("read_fail"); event("read_fail %s #%lu", f.path.c_str(), (unsigned long)ps.reads); errno = x->err ? x->err : EIO; return -1; }
  for (auto& x : cfg.faults) if (x.kind == "read_fail_at" && match(x, f.path)) {
    if (f.pos >= x.n) { ps.failed++; count_fault("read_fail"); event("read_fail_at %s", f.path.c_str()); errno = x.err ? x.err : EIO; return -1; }
    if (f.pos + n > x.n) n = x.n - f.pos;
  }
  if (cfg.io_eintr > 0 && rng_io->unit() < cfg.io_eintr) { count_fault("eintr"); errno = EINTR; return -1; }
  size_t av = f.pos < f.ino->data.size() ? f.ino->data.size() - f.pos : 0; if (n > av) n = av;
  if (n > 1 && cfg.io_short > 0 && rng_io->unit() < cfg.io_short) { count_fault("short_read"); n = 1 + rng_io->below(n); }
  memcpy(b, f.ino->data.data() + f.pos, n); f.pos += n; return (ssize_t)n;
}
static void note_fail(const char* k, PStat& ps, File& f) { if (!ps.failed++) event("%s %s #%lu", k, f.path.c_str(), (unsigned long)ps.writes); count_fault(k); }
static ssize_t do_write(File& f, const void* b, size_t n) {
  PStat& ps = (*pstats)[f.path]; ps.writes++; n_write++; ++g_writes;
  if (f.flags & O_APPEND) f.pos = f.ino->data.size();
  op('w', f.path, n, &f, b, n);
  if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (Fault* x = due("write_fail", f.path, ps.writes)) { note_fail("write_fail", ps, f); errno = x->err ? x->err : EIO; return -1; }
  for (auto& x : cfg.faults) if (x.kind == "write_fail_at" && match(x, f.path)) {
    if (f.pos >= x.n) { note_fail("write_fail", ps, f); errno = x.err ? x.err : EIO; return -1; }
    if (f.pos + n > x.n) { count_fault("short_write"); n = x.n - f.pos; }
  }
  for (auto& x : cfg.faults) if (x.kind == "enospc") {
    uint64_t used = disk_used(), cap = cap_base + x.n, grow = f.pos + n > f.ino->data.size() ? f.pos + n - f.ino->data.size() : 0;
    if (used + grow > cap) {
      uint64_t room = cap > used ? cap - used : 0;
      if (room == 0) { note_fail("enospc", ps, f); errno = ENOSPC; return -1; }
      n = n - grow + room; count_fault("short_write");
    }
  }
  if (cfg.io_eintr > 0 && rng_io->unit() < cfg.io_eintr) { count_fault("eintr"); errno = EINTR; return -1; }
  if (n > 1 && cfg.io_short > 0 && rng_io->unit() < cfg.io_short) { count_fault("short_write"); n = 1 + rng_io->below(n); }
  if (f.ino->data.size() < f.pos + n) f.ino->data.resize(f.pos + n);
  f.ino->data.replace(f.pos, n, (const char*)b, n);
  if (journalling) journal->push_back({'w', f.ino, "", std::string((const char*)b, n), f.pos});
  f.pos += n; ps.bytes += n; n_bytes_w += n; return (ssize_t)n;
}
static int do_close(int fd) {
  auto it = fds->find(fd); if (it == fds->end()) { errno = EBADF; return -1; }
  std::string p = it->second.path; PStat& ps = (*pstats)[p]; ps.closes++; ++g_closes;
  bool wr = (it->second.flags & O_ACCMODE) != O_RDONLY;
  fds->erase(it); syscall(SYS_close, fd);
  op('c', p, 0);
  if (wr) if (Fault* x = due("close_fail", p, ps.closes)) { ps.failed++; count_fault("close_fail"); event("close_fail %s", p.c_str()); errno = x->err ? x->err : EIO; return -1; }
  return 0;
}
static off_t do_seek(File& f, off_t o, int wh) {
  off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f.pos : (off_t)f.ino->data.size();
  if (base + o < 0) { errno = EINVAL; return -1; }
  f.pos = base + o; return (off_t)f.pos;
}
static void fill_stat(struct stat* st, const Ip& i) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off_t)i->data.size(); st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = 1 + ((uintptr_t)i.get() >> 4); st->st_blocks = (st->st_size + 511) / 512; }

// ---- clock --------------------------------------------------------------------------------------
static double clk_rate = 1.0, cpu_rate = 1.0; static uint64_t cpu_off = 0; static int64_t clk_off = 0; static uint64_t clk_calls = 0;
uint64_t elapsed_ns() { return steps * 2 + extra_ns; }
uint64_t now_ns() {
  ++clk_calls; int64_t base = cfg.clock_base * 1000000000ll; int64_t e = (int64_t)elapsed_ns();
  if (cfg.clock == "frozen") return (uint64_t)base;
  if (cfg.clock == "skew" || cfg.clock == "slow") e = (int64_t)(e * clk_rate);
  else if (cfg.clock == "jumpy") { if (rng_clk->unit() < 0.2) { clk_off += (int64_t)(rng_clk->unit() * 86400e9); count_fault("clock_jump"); } e += clk_off; }
  else if (cfg.clock == "backwards") { if (rng_clk->unit() < 0.2) { clk_off -= (int64_t)(rng_clk->unit() * 3600e9); count_fault("clock_backwards"); } e += clk_off; }
  int64_t t = base + e; return t < 0 ? 0 : (uint64_t)t;
}

// processor time: the machine may be slower than simulated (skew, slow), may charge stalls (jumpy), have a coarse or absent
// processor clock (frozen), or a clock_t that wraps (backwards)
static uint64_t cpu_ns() {
  ++clk_calls; uint64_t e = elapsed_ns();
  if (cfg.clock == "frozen") return 0;
  if (cfg.clock == "skew" || cfg.clock == "slow") e = (uint64_t)(e * cpu_rate);
  else if (cfg.clock == "jumpy") { if (rng_clk->unit() < 0.2) { cpu_off += (uint64_t)(rng_clk->unit() * 7200e9); count_fault("clock_stall"); } e += cpu_off; }
  else if (cfg.clock == "backwards") e = (uint64_t)(e * cpu_rate) % 2147483648000ull;
  return e;
}

void io_init() {
  console_ptr = new std::string(); disk = new std::map<std::string, Ip>(); versions = new std::vector<std::pair<std::string, std::string>>(); disk0 = new std::map<std::string, std::string>(); fds = new std::unordered_map<int, File>(); fps = new std::unordered_map<FILE*, int>();
  pstats = new std::map<std::string, PStat>(); journal = new std::vector<JEnt>(); oplog = new std::vector<std::string>();
  rng_io = new Rng(cfg.seed ^ 0x10F11E); rng_clk = new Rng(cfg.seed ^ 0xC10C);
  if (cfg.clock == "skew") { clk_rate = rng_clk->unit() < 0.5 ? 0.01 + rng_clk->unit() : 1 + 100 * rng_clk->unit(); count_fault("clock_skew"); }
  if (cfg.clock == "slow") { clk_rate = cpu_rate = pow(10.0, 1 + 6 * rng_clk->unit()); count_fault("clock_slow"); }
  if (cfg.clock == "skew" || cfg.clock == "backwards") cpu_rate = pow(10.0, -2 + 7 * rng_clk->unit());
  if (cfg.clock == "frozen") count_fault("clock_frozen");
  for (auto& f : cfg.files) {
    FILE* h = fopen(f.second.c_str(), "rb"); if (!h) { fprintf(stderr, "sim: no input %s\n", f.second.c_str()); _exit(97); }
    Ip n(new Inode); char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, h)) > 0) n->data.append(b, k); fclose(h);
    n->initial = n->data.size(); std::string p = norm(f.first.c_str()); (*disk)[p] = n; (*disk0)[p] = n->data;
  }
  cap_base = disk_used();
  for (auto& x : cfg.faults) { if (x.kind == "power" || x.kind == "powerx") journalling = true; if (x.kind == "crash_step" && x.n < step_limit) step_limit = x.n; }
  on = true;
}
uint64_t io_hash() { return iohash; }
void io_report(FILE* f) {
  fprintf(f, "io_ops %lu\nio_opens %lu\nio_reads %lu\nio_writes %lu\nio_renames %lu\nio_bytes_written %lu\nclock_calls %lu\nelapsed_ns %lu\nconsole_bytes %lu\n",
    (unsigned long)n_ops, (unsigned long)n_open, (unsigned long)n_read, (unsigned long)n_write, (unsigned long)n_rename, (unsigned long)n_bytes_w, (unsigned long)clk_calls, (unsigned long)elapsed_ns(), (unsigned long)console_text.size());
  for (auto& p : *pstats) fprintf(f, "path %s %lu %lu %lu %lu %lu %lu\n", p.first.c_str(), (unsigned long)p.second.opens, (unsigned long)p.second.reads, (unsigned long)p.second.writes, (unsigned long)p.second.bytes, (unsigned long)p.second.closes, (unsigned long)p.second.failed);
  fprintf(f, "openfds %lu\n", (unsigned long)fds->size());
}
void io_dump(const std::string& dir) {
  std::string d = dir + "/fs"; mkdir(d.c_str(), 0755);
  for (auto& x : *disk) {
    std::string n = x.first; for (auto& c : n) if (c == '/') c = '@';
    auto o = disk0->find(x.first); if (cfg.dump_fs == 1 && o != disk0->end() && o->second == x.second->data) continue;
    FILE* f = fopen((d + "/" + n).c_str(), "wb"); if (f) { fwrite(x.second->data.data(), 1, x.second->data.size(), f); fclose(f); }
  }
  for (size_t i = 0; i < versions->size(); i++) {
    std::string n = (*versions)[i].first; for (auto& c : n) if (c == '/') c = '@';
    FILE* f = fopen((dir + "/ver" + std::to_string(i) + "_" + n).c_str(), "wb"); if (f) { fwrite((*versions)[i].second.data(), 1, (*versions)[i].second.size(), f); fclose(f); }
  }
}
// ---- console ------------------------------------------------------------------------------------
struct ConBuf : std::streambuf {
  bool bad() { for (auto& x : cfg.faults) if (x.kind == "console_fail" && n_console >= x.n) { count_fault("console_fail"); return true; } return false; }
  int overflow(int c) { Guard g; if (c == EOF) return 0; ++n_console; if (bad()) return EOF; console_text += (char)c; return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) { Guard g; ++n_console; if (bad()) return 0; console_text.append(s, (size_t)n); return n; }
  int sync() { return 0; }
};
struct InBuf : std::streambuf { int underflow() { Guard g; event("stdin read"); stdin_blocked = true; finish("stdin-wait", 96); return EOF; } };
void console_hooks() { std::cout.rdbuf(new ConBuf()); std::cerr.rdbuf(new ConBuf()); std::clog.rdbuf(std::cerr.rdbuf()); std::cin.rdbuf(new InBuf()); }
FILE* host_fopen(const char* p, const char* m) { Guard g; return fopen(p, m); }

// stdio cookie
static ssize_t ck_read(void* c, char* b, size_t n) { Guard g; auto it = fds->find((int)(intptr_t)c); if (it == fds->end()) return -1; return do_read(it->second, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { Guard g; auto it = fds->find((int)(intptr_t)c); if (it == fds->end()) return 0; ssize_t r = do_write(it->second, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int wh) { Guard g; auto it = fds->find((int)(intptr_t)c); if (it == fds->end()) return -1; off_t r = do_seek(it->second, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { Guard g; int fd = (int)(intptr_t)c; if (!fds->count(fd)) return 0; return do_close(fd); }
static int mode_flags(const char* m) {
  int f = 0; bool plus = strchr(m, '+') != 0;
  if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY; else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x')) f |= O_EXCL; return f;
}
static bool sim_path(const char* p) { return on && in_sim == 0 && p && !host_path(norm(p)); }
static File* sim_fd(int fd) { if (!on) return 0; auto it = fds->find(fd); return it == fds->end() ? 0 : &it->second; }
} // namespace sim
using namespace sim;
#define SIMP(p) ({ bool y_ = false; if (on && in_sim == 0) { Guard g_; std::string n_ = norm(p); y_ = !host_path(n_); } y_; })
extern "C" {
FILE* fopen(const char* p, const char* m) {
  REAL(fopen); if (!SIMP(p)) return r_fopen(p, m);
  sched_point(); Guard g; int fd = do_open(p, mode_flags(m)); if (fd < 0) return 0;
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE* f = fopencookie((void*)(intptr_t)fd, m, io); if (!f) return 0;
  (*fds)[fd].fp = f; (*fps)[f] = fd; return f;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fileno(FILE* f) { REAL(fileno); if (on) { Guard g; auto it = fps->find(f); if (it != fps->end()) return it->second; } return r_fileno(f); }
int fclose(FILE* f) {
  REAL(fclose);
  if (on) { bool mine; { Guard g; mine = fps->count(f); } if (mine) { sched_point(); Guard g; fps->erase(f); return r_fclose(f); } }
  return r_fclose(f);
}
int open(const char* p, int fl, ...) {
  mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = (mode_t)va_arg(a, int); va_end(a); }
  if (!SIMP(p)) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
  sched_point(); Guard g; return do_open(p, fl);
}
int open64(const char* p, int fl, ...) { return open(p, fl, 0644); }
int openat(int d, const char* p, int fl, ...) { mode_t m = 0644; if (!SIMP(p)) return (int)syscall(SYS_openat, d, p, fl, m); Guard g; return do_open(p, fl); }
int creat(const char* p, mode_t) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
int close(int fd) { File* f = sim_fd(fd); if (!f) return (int)syscall(SYS_close, fd); sched_point(); Guard g; return do_close(fd); }
ssize_t read(int fd, void* b, size_t n) {
  File* f = sim_fd(fd);
  if (!f) { if (fd == 0 && on && in_sim == 0) { event("stdin read"); stdin_blocked = true; finish("stdin-wait", 96); } return syscall(SYS_read, fd, b, n); }
  sched_point(); Guard g; return do_read(*sim_fd(fd), b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  File* f = sim_fd(fd);
  if (!f) { if ((fd == 1 || fd == 2) && on && in_sim == 0) { Guard g; console_text.append((const char*)b, n); return (ssize_t)n; } return syscall(SYS_write, fd, b, n); }
  sched_point(); Guard g; return do_write(*sim_fd(fd), b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  File* f = sim_fd(fd); if (!f) return syscall(SYS_writev, fd, v, c);
  sched_point(); Guard g; f = sim_fd(fd); std::string s; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
  return do_write(*f, s.data(), s.size());
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { File* f = sim_fd(fd); if (!f) return syscall(SYS_pwrite64, fd, b, n, o); Guard g; uint64_t p = f->pos; f->pos = o; ssize_t r = do_write(*f, b, n); f->pos = p; return r; }
ssize_t pread(int fd, void* b, size_t n, off_t o) { File* f = sim_fd(fd); if (!f) return syscall(SYS_pread64, fd, b, n, o); Guard g; uint64_t p = f->pos; f->pos = o; ssize_t r = do_read(*f, b, n); f->pos = p; return r; }
off_t lseek(int fd, off_t o, int w) { File* f = sim_fd(fd); if (!f) return syscall(SYS_lseek, fd, o, w); Guard g; return do_seek(*f, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fsync(int fd) { File* f = sim_fd(fd); if (!f) return (int)syscall(SYS_fsync, fd); Guard g; op('s', f->path, 0); PStat& ps = (*pstats)[f->path];
  if (Fault* x = due("fsync_fail", f->path, 1)) { ps.failed++; count_fault("fsync_fail"); event("fsync_fail %s", f->path.c_str()); errno = x->err ? x->err : EIO; return -1; }
  if (cfg.io_eintr > 0 && rng_io->unit() < cfg.io_eintr) { count_fault("eintr"); errno = EINTR; return -1; }
  if (journalling) journal->push_back({'s', f->ino, "", "", 0});
  return 0; }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) { File* f = sim_fd(fd); if (!f) return (int)syscall(SYS_ftruncate, fd, n); Guard g; op('t', f->path, n); f->ino->data.resize(n); if (journalling) journal->push_back({'t', f->ino, "", "", (uint64_t)n}); return 0; }
int rename(const char* a, const char* b) {
  if (!SIMP(a)) return (int)syscall(SYS_rename, a, b);
  sched_point(); Guard g; std::string x = norm(a), y = norm(b); ++n_rename; op('m', x + ">" + y, 0);
  if (Fault* f = due("rename_fail", y, 1)) { (*pstats)[y].failed++; count_fault("rename_fail"); event("rename_fail %s", y.c_str()); errno = f->err ? f->err : EIO; return -1; }
  auto it = disk->find(x); if (it == disk->end()) { errno = ENOENT; return -1; }
  Ip i = it->second; if (x != y) { keep_version(y); disk->erase(it); (*disk)[y] = i; }
  if (journalling) { journal->push_back({'r', i, x, y, 0}); }
  return 0;
}
int unlink(const char* p) { if (!SIMP(p)) return (int)syscall(SYS_unlink, p); Guard g; std::string x = norm(p); op('u', x, 0); if (!disk->erase(x)) { errno = ENOENT; return -1; } if (journalling) journal->push_back({'u', Ip(), x, "", 0}); return 0; }
int remove(const char* p) { return unlink(p); }
int access(const char* p, int m) { if (!SIMP(p)) return (int)syscall(SYS_access, p, m); Guard g; op('a', norm(p), 0); if (disk->count(norm(p))) return 0; errno = ENOENT; return -1; }
int stat(const char* p, struct stat* st) {
  if (!SIMP(p)) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
  Guard g; std::string n = norm(p); op('a', n, 0); auto it = disk->find(n);
  if (it == disk->end()) { if (n.empty() || n == "/work" || n == "/") { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; } errno = ENOENT; return -1; }
  fill_stat(st, it->second); return 0;
}
int lstat(const char* p, struct stat* st) { return stat(p, st); }
int fstat(int fd, struct stat* st) { File* f = sim_fd(fd); if (!f) return (int)syscall(SYS_fstat, fd, st); Guard g; fill_stat(st, f->ino); return 0; }
int mkdir(const char* p, mode_t m) { if (!SIMP(p)) return (int)syscall(SYS_mkdir, p, m); return 0; }
// clocks
static bool simclk() { return on && in_sim == 0; }
int clock_gettime(clockid_t id, struct timespec* ts) { if (!simclk()) return (int)syscall(SYS_clock_gettime, id, ts); Guard g; uint64_t t = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? cpu_ns() : now_ns(); ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull); return 0; }
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
clock_t clock(void) { struct timespec ts; if (!simclk()) { clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); } else { Guard g; uint64_t e = cpu_ns(); ts.tv_sec = (time_t)(e / 1000000000ull); ts.tv_nsec = (long)(e % 1000000000ull); } return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
int nanosleep(const struct timespec* q, struct timespec*) { if (!simclk()) return (int)syscall(SYS_nanosleep, q, 0); extra_ns += (uint64_t)q->tv_sec * 1000000000ull + (uint64_t)q->tv_nsec; sched_yield_point(); return 0; }
int sched_yield(void) { if (!simclk()) return (int)syscall(SYS_sched_yield); sched_yield_point(); return 0; }
int usleep(useconds_t u) { struct timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = { (time_t)s, 0 }; nanosleep(&t, 0); return 0; }
}
