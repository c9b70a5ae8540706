#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "handle_abort=1:handle_sigfpe=1:handle_sigill=1:exitcode=77:symbolize=0:print_legend=0:print_summary=1:"
         "quarantine_size_mb=16:thread_local_quarantine_size_kb=64:max_redzone=256:malloc_context_size=8:"
         "intercept_send=0:allow_user_segv_handler=1:check_printf=1:strict_memcmp=0:check_initialization_order=0";
}

const char *fate_name[] = {"running", "return", "exit", "abort", "assert", "killed", "hang", "heap", "deadlock", "asan", "signal", "timeout", "harness"};

u64 hash_bytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p;
  while (n >= 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
  while (n--) h = (h ^ *b++) * 1099511628211ull;
  return h ^ (h >> 31);
}

static Sim sim0;
Sim *G = &sim0;
std::function<string()> fatal_report;

// ================================================================ step clock
static u64 g_steps;              // steps up to the last refill
extern "C" { i64 sim_fuel = LLONG_MAX; void sim_out_of_fuel(); }
#define g_fuel sim_fuel
static i64 g_fuel_start = LLONG_MAX;
static i64 g_hang_at = LLONG_MAX, g_kill_at = LLONG_MAX, g_switch_at = LLONG_MAX;
extern "C" { u8 *sim_edge_map; }
u8 *&sim_edges = sim_edge_map; u32 sim_nedges = 1;
static const u32 MAXEDGES = 1 << 18;
static bool sched_on = false;
static void sched_tick();

static inline u64 now_steps() { return g_steps + (u64)(g_fuel_start - g_fuel); }
u64 sim_steps() { return now_steps(); }
static void refill() {
  g_steps = now_steps();
  i64 t = std::min<i64>(g_hang_at, std::min<i64>(g_kill_at, sched_on ? g_switch_at : LLONG_MAX));
  g_fuel_start = g_fuel = t == LLONG_MAX ? LLONG_MAX : std::max<i64>(1, t - (i64)g_steps);
}
extern "C" void __attribute__((noinline)) sim_out_of_fuel() {
  g_steps = now_steps(); g_fuel_start = g_fuel;
  i64 s = (i64)g_steps;
  if (s >= g_kill_at) { G->fired["kill"]++; sim_fatal(F_KILLED, "killed at step"); }
  if (s >= g_hang_at) sim_fatal(F_HANG, "no end within the step budget");
  if (sched_on && s >= g_switch_at) sched_tick();
  refill();
}
// inside a stdio callback the stream is locked: a thread switch waits until the callback is over
static bool g_nopreempt = false;
static inline void step() { if (__builtin_expect(--g_fuel <= 0, 0)) sim_out_of_fuel(); }
static inline void step_locked() { g_nopreempt = true; step(); g_nopreempt = false; }
void sim_set_budget(i64 more, i64 kill_in) {
  g_steps = now_steps(); g_fuel_start = g_fuel;
  g_hang_at = more ? (i64)g_steps + more : LLONG_MAX;
  g_kill_at = kill_in ? (i64)g_steps + kill_in : LLONG_MAX;
  refill();
}

static u32 load_edge_first;
extern "C" void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) {
  if (start == stop || *start) return;
  for (u32 *x = start; x < stop; x++) { if (sim_nedges < MAXEDGES - 1) sim_nedges++; *x = sim_nedges; }
}

// ================================================================ events
void ev(const char *kind, u64 a, u64 b) {
  u64 k; k = hash_bytes(kind, strlen(kind));
  G->evhash = mix64(mix64(mix64(G->evhash, k), a), b);
  G->events++;
  if (G->trace_on && G->trace.size() < 200000) {
    char t[160]; snprintf(t, sizeof t, "%llu T%d %s %lld %lld\n", (unsigned long long)now_steps(), sim_current_thread(), kind, (long long)a, (long long)b);
    G->trace += t;
  }
}

// ================================================================ child reporting
static int report_fd = -1;
static void put_report(Fate f, int code, const string &msg, const string &rep) {
  Out o; o.u(0x53494d52); o.u(f); o.u(code); o.u(now_steps()); o.s(msg); o.s(rep);
  o.u(G->fired.size()); for (auto &x : G->fired) { o.s(x.first); o.u(x.second); }
  o.u(G->evhash); o.u(G->events); o.s(G->trace);
  size_t n = 0;
  while (n < o.b.size()) { ssize_t r = ::write(report_fd, o.b.data() + n, o.b.size() - n); if (r <= 0) break; n += r; }
}
[[noreturn]] void sim_fatal(Fate f, const string &msg, int code) {
  sched_on = false; g_steps = now_steps(); g_fuel = g_fuel_start = LLONG_MAX;
  if (report_fd < 0) { fprintf(stderr, "sim_fatal outside a run: %s\n", msg.c_str()); _exit(99); }
  string rep;
  if (fatal_report) { auto fr = fatal_report; fatal_report = nullptr; rep = fr(); }
  put_report(f, code, msg, rep);
  _exit(0);
}
static int rep_memfd = -1, err_memfd = -1;
void child_init() {
  rep_memfd = memfd_create("report", 0); err_memfd = memfd_create("stderr", 0);
  signal(SIGPIPE, SIG_IGN);
}
static string slurp_fd(int fd, size_t cap = 1ull << 31) {
  off_t n = lseek(fd, 0, SEEK_END); string s; if (n > (off_t)cap) n = cap;
  s.resize(n); size_t p = 0;
  while (p < s.size()) { ssize_t r = pread(fd, &s[p], s.size() - p, p); if (r <= 0) break; p += r; }
  s.resize(p); return s;
}
ChildResult run_child(const std::function<string()> &body, int wall_s) {
  ChildResult r;
  if (ftruncate(rep_memfd, 0) || ftruncate(err_memfd, 0)) {}
  lseek(rep_memfd, 0, SEEK_SET); lseek(err_memfd, 0, SEEK_SET);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { r.msg = "fork failed"; return r; }
  if (pid == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = wall_s; rl.rlim_max = wall_s + 2; setrlimit(RLIMIT_CPU, &rl); alarm(3 * wall_s);
    report_fd = rep_memfd; dup2(err_memfd, 2);
    int z = open("/dev/null", O_RDWR); dup2(z, 0); dup2(z, 1); 
    g_steps = 0; g_fuel = g_fuel_start = LLONG_MAX; g_hang_at = g_kill_at = LLONG_MAX;
    sim_reset();
    string rep = body();
    g_steps = now_steps(); g_fuel = g_fuel_start = LLONG_MAX;
    put_report(F_RETURN, 0, "", rep);
    _exit(0);
  }
  int st = 0; i64 waited = 0; bool late = false;
  for (;;) {
    pid_t w = waitpid(pid, &st, 0);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) { r.msg = "wait failed"; return r; }
    (void)waited;
  }
  string b = slurp_fd(rep_memfd);
  In in(b);
  if (b.size() >= 8 && in.u() == 0x53494d52 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    r.fate = (Fate)in.u(); r.code = (int)in.u(); r.steps = in.u(); r.msg = in.s(); r.report = in.s();
    u64 n = in.u(); for (u64 i = 0; i < n && !in.bad; i++) { string k = in.s(); r.fired[k] = in.u(); }
    r.evhash = in.u(); r.events = in.u(); r.trace = in.s();
    if (in.bad) { r.fate = F_HARNESS; r.msg = "bad report"; }
    return r;
  }
  string e = slurp_fd(err_memfd, 1 << 16);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.fate = F_ASAN; r.code = 77; r.msg = e; return r; }
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGXCPU || s == SIGKILL || s == SIGALRM || late) { r.fate = F_TIMEOUT; r.msg = "wall limit or memory killer"; }
    else { r.fate = F_SIGNAL; r.code = s; r.msg = string("signal ") + strsignal(s) + "\n" + e; }
    return r;
  }
  r.fate = F_HARNESS; r.msg = "child ended oddly: " + e;
  return r;
}
string asan_summary(const string &m) {
  size_t p = m.find("ERROR: AddressSanitizer: ");
  if (p == string::npos) return m.substr(0, 300);
  size_t e = m.find('\n', p);
  string r = m.substr(p + 7, e - p - 7);
  // drop addresses so that the message is the same in every process
  string o; for (size_t i = 0; i < r.size();) {
    if (r.compare(i, 2, "0x") == 0) { o += "0x_"; i += 2; while (i < r.size() && isxdigit((u8)r[i])) i++; }
    else o += r[i++];
  }
  size_t q = o.find(" on address"); if (q != string::npos) o.resize(q);
  q = o.find(" on unknown address"); if (q != string::npos) o.resize(q);
  // frames inside the SUT
  p = 0; int frames = 0;
  while (frames < 6 && (p = m.find("    #", p)) != string::npos) {
    size_t l = m.find('\n', p); string line = m.substr(p, l - p);
    size_t a = line.find("libsut_");
    if (a != string::npos) { size_t z = line.find(')', a); o += " " + line.substr(a, z - a); frames++; }
    if (line.find("    #0") == 0 && p > 10 && frames >= 6) break;
    p = l == string::npos ? m.size() : l;
    if (m.compare(p, 2, "\n\n") == 0 && frames) break;
  }
  return o;
}

// ================================================================ allocator
static void junk_fill(void *p, size_t n, u64 id) {
  u64 x = mix64(G->junk * 0x9E3779B97F4A7C15ull + 77, id) | 1;
  int style = (x >> 60) & 7;
  u8 *b = (u8 *)p;
  if (style == 0) { memset(b, 0xFF, n); return; }
  if (style == 1) { memset(b, 0x01, n); return; }
  u64 *w = (u64 *)p; size_t k = n / 8;
  for (size_t i = 0; i < k; i++) { w[i] = x; x = x * 6364136223846793005ull + 1442695040888963407ull; }
  for (size_t i = k * 8; i < n; i++) { b[i] = (u8)(x >> 56); x = x * 6364136223846793005ull + 1; }
}
static bool alloc_fails(size_t n) {
  AWin &win = G->win[sim_current_thread() + 1];
  u64 idx = win.idx++;                       // index within the window
  i64 m = (i64)std::max<u64>(1, win.n);
  bool f = false;
  switch (win.af.kind) {
  case AFault::SINGLE: f = (i64)idx == (win.af.a % m + m) % m; break;   // negative: counted from the end
  case AFault::FROM: f = (i64)idx >= win.af.a % m; break;
  case AFault::PAIR: f = (i64)idx == win.af.a % m || (i64)idx == win.af.b % m; break;
  case AFault::MASK: f = (mix64((u64)win.af.a, idx) % 100) < (u64)win.af.b; break;
  case AFault::SIZE: f = n >= (size_t)std::max<i64>(1, win.af.a); break;
  case AFault::CAP: f = G->live_bytes + n > (u64)std::max<i64>(1, win.af.a); break;
  case AFault::EVERY: f = idx % (u64)std::max<i64>(1, win.af.a) == (u64)win.af.b % (u64)std::max<i64>(1, win.af.a); break;
  default: break;
  }
  static const char *kn[] = {"none", "alloc-single", "alloc-from", "alloc-pair", "alloc-mask", "alloc-size", "alloc-cap", "alloc-every"};
  if (f) G->fired[kn[win.af.kind]]++;
  if (!f && G->mem_cap && G->live_bytes + n > G->mem_cap) { f = true; G->fired["memory-cap"]++; }
  if (f) win.failed++;
  return f;
}
static void *do_alloc(size_t n, bool zero) {
  step();
  G->allocs++;
  if (n > G->max_request) G->max_request = n;
  ev("alloc", n, G->allocs);
  if (n > (1ull << 40) || alloc_fails(n)) { G->allocs_failed++; ev("alloc-fails", n, G->allocs); errno = ENOMEM; return nullptr; }
  void *p;
  if (zero) p = calloc(1, n ? n : 1); else p = malloc(n);
  if (!p) { G->allocs_failed++; G->fired["real-oom"]++; errno = ENOMEM; return nullptr; }
  if (!zero) junk_fill(p, n, G->allocs);
  G->live[p] = {n, G->allocs, G->win[sim_current_thread() + 1].tag};
  G->live_bytes += n;
  if (G->live_bytes > G->peak_bytes) G->peak_bytes = G->live_bytes;
  return p;
}
static void do_free(void *p, const char *who) {
  step();
  if (!p) return;
  auto it = G->live.find(p);
  if (it == G->live.end()) sim_fatal(F_HEAP, string(who) + " of a pointer that is not a live allocation (double or foreign free)");
  ev("free", it->second.size, it->second.id);
  G->frees++;
  G->live_bytes -= it->second.size;
  G->live.erase(it);
  free(p);
}
extern "C" {
void *sim_malloc(size_t n) { return do_alloc(n, false); }
void *sim_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) { G->allocs++; errno = ENOMEM; return nullptr; }
  return do_alloc(a * b, true);
}
void sim_free(void *p) { int e = errno; do_free(p, "free()"); errno = e; }
void *sim_realloc(void *p, size_t n) {
  if (!p) return do_alloc(n, false);
  auto it = G->live.find(p);
  if (it == G->live.end()) sim_fatal(F_HEAP, "realloc() of a pointer that is not a live allocation");
  if (n == 0) { do_free(p, "realloc()"); return nullptr; }
  size_t old = it->second.size;
  void *q = do_alloc(n, false);
  if (!q) return nullptr;
  memcpy(q, p, std::min(old, n));
  do_free(p, "realloc()");
  return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  return sim_realloc(p, a * b);
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)do_alloc(n, false); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *)do_alloc(n + 1, false); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_posix_memalign(void **out, size_t al, size_t n) { (void)al; void *p = do_alloc(n, false); if (!p) return ENOMEM; *out = p; return 0; }
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return do_alloc(n, false); }
int sim_vasprintf(char **out, const char *f, va_list ap) {
  va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
  if (n < 0) return n;
  char *p = (char *)do_alloc(n + 1, false); if (!p) { *out = nullptr; return -1; }
  vsnprintf(p, n + 1, f, ap); *out = p; return n;
}
int sim_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(out, f, ap); va_end(ap); return r; }
}

// ================================================================ disk
struct Handle {
  string path; std::shared_ptr<Node> node; u64 pos = 0; bool rd = false, wr = false, app = false; int fd = -1; FILE *file = nullptr; bool open = true; bool err = false; u64 ord = 0;   // ord: how many times the path was opened for reading before
};
static vector<Handle *> handles;
static string norm(const char *p) {
  string s = p; string o;
  for (size_t i = 0; i < s.size(); i++) { if (s[i] == '/' && !o.empty() && o.back() == '/') continue; o += s[i]; }
  while (o.compare(0, 2, "./") == 0) o = o.substr(2);
  return o;
}
static bool parent_ok(const string &p) {
  size_t k = p.rfind('/');
  if (k == string::npos || k == 0) return true;
  return G->dirs.count(p.substr(0, k)) > 0;
}
static void io_event(const char *op) {
  step_locked();
  G->nops[op]++; G->io_events++;
  ev(op, G->nops[op], 0);
}
static bool kill_here() { return G->kill_io && G->io_events == G->kill_io; }
static DFault *disk_fault(const char *op, const string &path) {
  DFault *hit = nullptr;
  for (size_t i = 0; i < G->df.size(); i++) {
    DFault &d = G->df[i];
    if (d.op != op || (!d.path.empty() && d.path != path)) continue;
    u64 k = G->df_count[i]++;
    if (!hit && ((i64)k == d.nth || (d.sticky && (i64)k > d.nth))) { hit = &d; G->df_fired[i]++; }
  }
  if (hit) { G->fired[string("disk-") + op]++; ev("disk-fault", hit->err, 0); }
  return hit;
}
static void touch(const string &p, const char *what) { string &t = G->touched[p]; if (t.size() < 200) { t += what; t += ' '; } }
static Handle *do_open(const char *cpath, bool rd, bool wr, bool app, bool trunc, bool creat, bool excl) {
  string p = norm(cpath);
  io_event("open");
  if (kill_here()) { G->fired["kill"]++; sim_fatal(F_KILLED, "killed at I/O event"); }
  if (DFault *d = disk_fault("open", p)) { errno = (int)d->err; return nullptr; }
  if (p.empty()) { errno = ENOENT; return nullptr; }
  if (G->dirs.count(p)) { if (wr) { errno = EISDIR; return nullptr; } }
  auto it = G->fs.find(p);
  if (it == G->fs.end()) {
    if (!creat || !parent_ok(p) || G->dirs.count(p)) { errno = ENOENT; if (!G->dirs.count(p) || wr) return nullptr; }
    if (!G->dirs.count(p)) { it = G->fs.emplace(p, std::make_shared<Node>()).first; touch(p, "create"); }
  }
  else {
    if (excl) { errno = EEXIST; return nullptr; }
    if (wr && !(it->second->mode & 0200)) { errno = EACCES; return nullptr; }
    if (rd && !(it->second->mode & 0400)) { errno = EACCES; return nullptr; }
    if (trunc && wr) { it->second->data.clear(); touch(p, "truncate"); }
  }
  Handle *h = new Handle; h->path = p; h->rd = rd; h->wr = wr; h->app = app;
  if (it != G->fs.end()) h->node = it->second; else h->node = nullptr;  // directory opened for reading
  for (auto o : handles) if (o->path == p && o->rd) h->ord++;
  handles.push_back(h);
  return h;
}
// a bad spot of the file: the bytes in front of it can be read through the nth-opened stream, those from there on cannot
static DFault *bad_spot(Handle *h, size_t &k) {
  for (size_t i = 0; i < G->df.size(); i++) {
    DFault &d = G->df[i];
    if (d.op != "readat" || (!d.path.empty() && d.path != h->path) || (i64)h->ord != d.nth || d.partial < 0 || (G->df_fired[i] && !d.sticky)) continue;
    u64 at = (u64)d.partial;
    if (h->pos < at) { if (h->pos + k > at) k = at - h->pos; continue; }
    if (h->pos > at && !(d.sticky && h->pos < at + 512)) continue;
    G->df_fired[i]++; G->fired["disk-readat"]++; ev("disk-fault", d.err, 1);
    return &d;
  }
  return nullptr;
}
static ssize_t do_read(Handle *h, char *buf, size_t n) {
  io_event("read");
  if (kill_here()) { G->fired["kill"]++; sim_fatal(F_KILLED, "killed at I/O event"); }
  if (!h->node) { errno = EISDIR; return -1; }
  DFault *d = disk_fault("read", h->path);
  if (d && d->partial <= 0) { errno = (int)d->err; return -1; }
  if (!h->rd) { errno = EBADF; return -1; }
  size_t avail = h->pos < h->node->data.size() ? h->node->data.size() - h->pos : 0;
  size_t k = std::min(n, avail);
  if (DFault *b = bad_spot(h, k)) { errno = (int)b->err; return -1; }
  if (G->short_seed && k > 1) {
    u64 r = mix64(G->short_seed, G->io_events);
    if (r % 3) { k = 1 + (r >> 8) % std::min<size_t>(k, (r & 64) ? k : 7); G->fired["short-read"]++; }
  }
  if (d) { k = std::min<size_t>(k, (size_t)d->partial); if (!d->sticky) { /* the rest fails on the next read */ d->partial = 0; d->nth++; } else d->partial = 0; }
  memcpy(buf, h->node->data.data() + h->pos, k);
  h->pos += k;
  return (ssize_t)k;
}
static ssize_t do_write_once(Handle *h, const char *buf, size_t n) {
  io_event("write");
  size_t k = n; bool fail = false; int er = EIO;
  if (G->short_seed && k > 1) {
    u64 r = mix64(G->short_seed ^ 5, G->io_events);
    if (r % 3) { k = 1 + (r >> 8) % k; G->fired["short-write"]++; }
  }
  if (!h->wr) { errno = EBADF; return -1; }
  if (DFault *d = disk_fault("write", h->path)) { fail = true; er = (int)d->err; k = std::min<size_t>(k, (size_t)std::max<i64>(0, d->partial)); if (k >= n) k = n ? n - 1 : 0; }
  if (G->disk_capacity >= 0 && (i64)k > G->disk_capacity) { k = (size_t)G->disk_capacity; fail = fail || k == 0; er = ENOSPC; G->fired["disk-full"]++; }
  bool kill = kill_here();
  if (kill) k = std::min<size_t>(k, n ? G->kill_partial % (n + 1) : 0);
  string &f = h->node->data;
  if (h->app) h->pos = f.size();
  if (k) {
    if (h->pos + k > f.size()) f.resize(h->pos + k);
    memcpy(&f[h->pos], buf, k);
    h->pos += k;
    if (G->disk_capacity >= 0) G->disk_capacity -= (i64)k;
    touch(h->path, "write");
  }
  if (kill) { G->fired["kill"]++; sim_fatal(F_KILLED, "killed at I/O event"); }
  if (fail && k == 0) { errno = er; return -1; }
  if (fail) { h->err = true; errno = er; return -2 - (ssize_t)k; }   // k bytes, then failure
  return (ssize_t)k;
}
static int do_close(Handle *h) {
  io_event("close");
  h->open = false;
  if (kill_here()) { G->fired["kill"]++; sim_fatal(F_KILLED, "killed at I/O event"); }
  int r = 0;
  if (DFault *d = disk_fault("close", h->path)) {
    errno = (int)d->err; r = -1;
    if (h->wr && d->partial > 0 && h->node) {  // delayed write-back failed: the tail never reached the disk
      size_t lose = std::min<size_t>((size_t)d->partial, h->node->data.size());
      h->node->data.resize(h->node->data.size() - lose);
    }
  }
  return r;
}
// stdio on the simulated disk
static ssize_t ck_read(void *c, char *buf, size_t n) { return do_read((Handle *)c, buf, n); }
static ssize_t ck_write(void *c, const char *buf, size_t n) {  // what write(2) loops in libc do
  Handle *h = (Handle *)c; size_t done = 0;
  while (done < n) {
    ssize_t k = do_write_once(h, buf + done, n - done);
    if (k == -1) return done ? (ssize_t)done : 0;
    if (k < -1) return (ssize_t)(done + (size_t)(-2 - k));
    done += (size_t)k;
  }
  return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
  Handle *h = (Handle *)c;
  io_event("seek");
  if (!h->node) { errno = EISDIR; return -1; }
  if (DFault *d = disk_fault("seek", h->path)) { errno = (int)d->err; return -1; }
  i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)h->pos : (i64)h->node->data.size();
  i64 t = base + *off;
  if (t < 0) { errno = EINVAL; return -1; }
  h->pos = (u64)t; *off = t; return 0;
}
static int ck_close(void *c) { return do_close((Handle *)c); }

static FILE *as_file(Handle *h, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(h, mode, io);
  h->file = f;
  return f;
}
static vector<FILE *> open_files;
static ssize_t so_write(void *, const char *b, size_t n);
static ssize_t se_write(void *, const char *b, size_t n);
extern "C" {
FILE *sim_stdin, *sim_stdout, *sim_stderr;
FILE *sim_fopen(const char *path, const char *mode) {
  bool plus = strchr(mode, '+'), r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
  if (!r && !w && !a) { errno = EINVAL; return nullptr; }
  Handle *h = do_open(path, r || plus, w || a || plus, a, w, w || a, strchr(mode, 'x') != nullptr);
  if (!h) return nullptr;
  FILE *f = as_file(h, mode);
  open_files.push_back(f);
  return f;
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_fclose(FILE *f) {
  for (size_t i = 0; i < open_files.size(); i++) if (open_files[i] == f) { open_files.erase(open_files.begin() + i); return fclose(f); }
  if (f == sim_stdout || f == sim_stderr || f == sim_stdin) { int r = fflush(f); if (ferror(f)) r = EOF; return r; }
  sim_fatal(F_HEAP, "fclose() of a stream that is not open");
}
static Handle *by_fd(int fd) { for (auto h : handles) if (h->open && h->fd == fd) return h; return nullptr; }
int sim_fileno(FILE *f) {
  if (f == sim_stdin) return 0; if (f == sim_stdout) return 1; if (f == sim_stderr) return 2;
  for (auto h : handles) if (h->open && h->file == f) { if (h->fd < 0) { static int n = 2000; h->fd = n++; } return h->fd; }
  errno = EBADF; return -1;
}
int sim_open(const char *p, int fl, ...) {
  int acc = fl & O_ACCMODE;
  Handle *h = do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_TRUNC, fl & O_CREAT, (fl & O_EXCL) && (fl & O_CREAT));
  if (!h) return -1;
  static int n = 1000; h->fd = n++; return h->fd;
}
int sim_open64(const char *p, int fl, ...) { return sim_open(p, fl, 0644); }
int sim_creat(const char *p, int) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
FILE *sim_fdopen(int fd, const char *mode) { Handle *h = by_fd(fd); if (!h) { errno = EBADF; return nullptr; } FILE *f = as_file(h, mode); open_files.push_back(f); return f; }
FILE *sim_freopen(const char *p, const char *m, FILE *f) { sim_fclose(f); return sim_fopen(p, m); }
ssize_t sim_read(int fd, void *b, size_t n) { if (Handle *h = by_fd(fd)) return do_read(h, (char *)b, n); errno = EBADF; return -1; }
ssize_t sim_write(int fd, const void *b, size_t n) {
  if (fd == 1 || fd == 2) { ssize_t k = fd == 1 ? so_write(nullptr, (const char *)b, n) : se_write(nullptr, (const char *)b, n); return k <= 0 && n ? -1 : k; }   // past the stream and its error flag
  Handle *h = by_fd(fd); if (!h) { errno = EBADF; return -1; }
  ssize_t k = do_write_once(h, (const char *)b, n);
  return k < -1 ? (-2 - k) : k;
}
int sim_close(int fd) { Handle *h = by_fd(fd); if (!h) { errno = EBADF; return -1; } return do_close(h); }
off_t sim_lseek(int fd, off_t o, int wh) { Handle *h = by_fd(fd); if (!h) { errno = EBADF; return -1; } off64_t x = o; return ck_seek(h, &x, wh) ? -1 : (off_t)x; }
int sim_fsync(int fd) { io_event("fsync"); Handle *h = by_fd(fd); if (DFault *d = disk_fault("fsync", h ? h->path : "")) { errno = (int)d->err; return -1; } return 0; }
int sim_ftruncate(int fd, off_t n) { Handle *h = by_fd(fd); if (!h || !h->wr) { errno = EBADF; return -1; } io_event("write"); h->node->data.resize((size_t)n); touch(h->path, "truncate"); return 0; }
int sim_unlink(const char *p) {
  io_event("unlink"); string s = norm(p);
  if (DFault *d = disk_fault("unlink", s)) { errno = (int)d->err; return -1; }
  if (!G->fs.count(s)) { errno = ENOENT; return -1; }
  G->fs.erase(s); touch(s, "unlink"); return 0;
}
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_rename(const char *a, const char *b) {
  io_event("rename"); string x = norm(a), y = norm(b);
  if (kill_here()) { G->fired["kill"]++; sim_fatal(F_KILLED, "killed at I/O event"); }
  if (DFault *d = disk_fault("rename", y)) { errno = (int)d->err; return -1; }
  if (!G->fs.count(x) || !parent_ok(y)) { errno = ENOENT; return -1; }
  if (x != y) { G->fs[y] = G->fs[x]; G->fs.erase(x); }
  touch(x, "rename-from"); touch(y, "rename-to"); return 0;
}
int sim_truncate(const char *p, off_t n) { string s = norm(p); if (!G->fs.count(s)) { errno = ENOENT; return -1; } G->fs[s]->data.resize((size_t)n); touch(s, "truncate"); return 0; }
int sim_chmod(const char *p, mode_t m) { string s = norm(p); if (!G->fs.count(s)) { errno = ENOENT; return -1; } G->fs[s]->mode = m; touch(s, "chmod"); return 0; }
int sim_mkdir(const char *p, mode_t) { string s = norm(p); G->dirs.insert(s); touch(s, "mkdir"); return 0; }
int sim_rmdir(const char *p) { string s = norm(p); G->dirs.erase(s); touch(s, "rmdir"); return 0; }
int sim_mkstemp(char *t) {
  static u64 c = 0; size_t n = strlen(t);
  if (n < 6) { errno = EINVAL; return -1; }
  for (int i = 0; i < 6; i++) t[n - 6 + i] = 'a' + (char)((mix64(c, 7) >> (8 * i)) % 26);
  c++;
  return sim_open(t, O_CREAT | O_EXCL | O_RDWR, 0600);
}
FILE *sim_tmpfile() { Handle *h = new Handle; h->path = "(tmpfile)"; h->rd = h->wr = true; h->node = std::make_shared<Node>(); handles.push_back(h); FILE *f = as_file(h, "w+"); open_files.push_back(f); return f; }
int sim_access(const char *p, int m) {
  string s = norm(p); if (G->dirs.count(s)) return 0;
  auto it = G->fs.find(s); if (it == G->fs.end()) { errno = ENOENT; return -1; }
  if ((m & 2) && !(it->second->mode & 0200)) { errno = EACCES; return -1; }
  return 0;
}
static int fill_stat(const string &s, struct stat *st) {
  memset(st, 0, sizeof *st);
  if (G->dirs.count(s)) { st->st_mode = S_IFDIR | 0755; return 0; }
  auto it = G->fs.find(s); if (it == G->fs.end()) { errno = ENOENT; return -1; }
  st->st_mode = S_IFREG | (mode_t)it->second->mode; st->st_size = (off_t)it->second->data.size(); st->st_nlink = 1; st->st_ino = hash_str(s) & 0xffffff; st->st_dev = 1;
  return 0;
}
int sim_stat(const char *p, struct stat *st) { return fill_stat(norm(p), st); }
int sim_fstat(int fd, struct stat *st) { Handle *h = by_fd(fd); if (!h) { errno = EBADF; return -1; } return fill_stat(h->path, st); }
char *sim_realpath(const char *p, char *out) { string s = norm(p); if (!G->fs.count(s) && !G->dirs.count(s)) { errno = ENOENT; return nullptr; } if (!out) return sim_strdup(s.c_str()); strcpy(out, s.c_str()); return out; }

ssize_t sim_getdelim(char **line, size_t *cap, int d, FILE *f) {
  size_t n = 0; int c;
  if (!*line) *cap = 0;
  while ((c = fgetc(f)) != EOF) {
    if (n + 2 > *cap) { size_t k = *cap ? *cap * 2 : 120; char *q = (char *)sim_realloc(*line, k); if (!q) return -1; *line = q; *cap = k; }
    (*line)[n++] = (char)c; (*line)[n] = 0;
    if (c == d) break;
  }
  return n ? (ssize_t)n : -1;
}
ssize_t sim_getline(char **line, size_t *cap, FILE *f) { return sim_getdelim(line, cap, '\n', f); }
struct MemStream { char **p; size_t *n; size_t cap; };
static ssize_t ms_write(void *c, const char *b, size_t n) {
  MemStream *m = (MemStream *)c;
  if (*m->n + n + 1 > m->cap) { size_t k = (*m->n + n + 1) * 2; char *q = (char *)sim_realloc(*m->p, k); if (!q) return 0; *m->p = q; m->cap = k; }
  memcpy(*m->p + *m->n, b, n); *m->n += n; (*m->p)[*m->n] = 0; return (ssize_t)n;
}
FILE *sim_open_memstream(char **p, size_t *n) {
  MemStream *m = new MemStream{p, n, 64};
  *n = 0; *p = (char *)sim_malloc(64); if (!*p) return nullptr; **p = 0;
  cookie_io_functions_t io = {nullptr, ms_write, nullptr, nullptr};
  FILE *f = fopencookie(m, "w", io); open_files.push_back(f); return f;
}

// ------------------------------------------------------------ console
static ssize_t con_write(string &dst, i64 cap, const char *b, size_t n, const char *nm) {
  step_locked(); G->io_events++; G->nops[nm]++; ev(nm, n, hash_bytes(b, n));
  bool kill = kill_here();
  size_t k = n;
  if (cap >= 0 && dst.size() + n > (size_t)cap) { k = dst.size() < (size_t)cap ? (size_t)cap - dst.size() : 0; }
  if (kill) { G->fired["kill"]++; dst.append(b, std::min<size_t>(k, n ? G->kill_partial % (n + 1) : 0)); sim_fatal(F_KILLED, "killed at I/O event"); }
  if (dst.size() < (1 << 22)) dst.append(b, k);
  if (k < n) { G->out_lost++; G->fired[string(nm) + "-fault"]++; errno = (int)G->out_errno; }
  return (ssize_t)k;
}
static ssize_t so_write(void *, const char *b, size_t n) { return con_write(G->out, G->out_cap, b, n, "stdout"); }
static ssize_t se_write(void *, const char *b, size_t n) { return con_write(G->err, G->err_cap, b, n, "stderr"); }
static ssize_t si_read(void *, char *, size_t) { return 0; }
int sim_vprintf(const char *f, va_list ap) { return vfprintf(sim_stdout, f, ap); }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
int sim_puts(const char *s) { if (fputs(s, sim_stdout) == EOF) return EOF; return fputc('\n', sim_stdout); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
int sim_getchar() { return EOF; }
void sim_perror(const char *s) { int e = errno; if (s && *s) fprintf(sim_stderr, "%s: ", s); fprintf(sim_stderr, "%s\n", strerror(e)); }

// ------------------------------------------------------------ ending
void sim_exit(int c) {
  ev("exit", (u64)c);
  if (!G->process_mode) sim_fatal(F_EXIT, "exit() called", c & 255);
  for (size_t i = G->atexits.size(); i--;) G->atexits[i]();
  auto of = open_files; for (auto f : of) fflush(f);
  fflush(sim_stdout); fflush(sim_stderr);
  sim_fatal(F_EXIT, "", c & 255);
}
void sim__exit(int c) { ev("_exit", (u64)c); sim_fatal(F_EXIT, G->process_mode ? "" : "_exit() called", c & 255); }
void sim_abort() { sim_fatal(F_ABORT, "abort() called"); }
void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { sim_fatal(F_ASSERT, string("assertion failed: ") + e + " in " + (fn ? fn : f)); (void)l; }
int sim_atexit(void (*f)()) { G->atexits.push_back(f); return 0; }
int sim_raise(int s) { sim_fatal(F_SIGNAL, "raise()", s); }

// ------------------------------------------------------------ clock, randomness, environment
static i64 tick() {
  G->clock_calls++; ev("clock", G->clock_calls);
  u64 r = mix64(G->clock_mode, G->clock_calls);
  switch (G->clock_mode % 6) {
  case 0: G->clock_now += 1000; break;
  case 1: break;
  case 2: G->clock_now -= 5000; G->fired["clock-backwards"]++; break;
  case 3: G->clock_now += (i64)(r % (1ull << 50)); G->fired["clock-jump"]++; break;
  case 4: G->clock_now = (i64)(r >> 2) - (i64)(1ull << 61); G->fired["clock-jump"]++; break;
  case 5: G->fired["clock-unavailable"]++; return -1;
  }
  return G->clock_now;
}
clock_t sim_clock() { return (clock_t)tick(); }
time_t sim_time(time_t *t) { time_t v = (time_t)(1700000000 + tick() / 1000000); if (t) *t = v; return v; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { i64 v = tick(); ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { i64 v = tick(); tv->tv_sec = v / 1000000; tv->tv_usec = v % 1000000; return 0; }
int sim_timespec_get(struct timespec *ts, int b) { sim_clock_gettime(0, ts); return b; }
int sim_usleep(unsigned n) { G->clock_now += n; ev("sleep", n); return 0; }
unsigned sim_sleep(unsigned n) { G->clock_now += (i64)n * 1000000; ev("sleep", n); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { G->clock_now += t->tv_sec * 1000000 + t->tv_nsec / 1000; return 0; }
static u64 rnd64() { u64 x = G->rnd; x ^= x << 13; x ^= x >> 7; x ^= x << 17; G->rnd = x; return x * 2685821657736338717ull; }
int sim_rand() { return (int)(rnd64() >> 33); }
void sim_srand(unsigned s) { G->rnd = mix64(G->rnd, s) | 1; }
long sim_random() { return (long)(rnd64() >> 33); }
double sim_drand48() { return (rnd64() >> 11) * (1.0 / 9007199254740992.0); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)rnd64(); return (ssize_t)n; }
pid_t sim_getpid() { return 4242; }
char *sim_getenv(const char *) { return nullptr; }
int sim_isatty(int) { return 0; }
void *sim_signal(int, void *) { return nullptr; }
int sim_system(const char *c) { ev("system"); touch(string("(command) ") + c, "system"); return -1; }
}

// ================================================================ threads under the baton
struct Th { pthread_t t; std::function<void()> body; bool done = false; pthread_cond_t cv; };
static vector<Th> ths;
static pthread_mutex_t baton = PTHREAD_MUTEX_INITIALIZER;
static int cur = -1;
static vector<SchedSlot> slots; static size_t slot_i; static i64 fallback_q;
u64 sim_sched_hash, sim_switches;
static bool all_done;
static pthread_cond_t main_cv = PTHREAD_COND_INITIALIZER;
int sim_current_thread() { return cur; }
static int pick_next(int want) {
  int n = (int)ths.size();
  for (int k = 0; k < n; k++) { int c = ((want + k) % n + n) % n; if (!ths[c].done) return c; }
  return -1;
}
static void arm_next(i64 *want) {
  if (slot_i < slots.size()) { g_switch_at = (i64)g_steps + std::max<i64>(1, slots[slot_i].quantum); *want = slots[slot_i].next; slot_i++; }
  else { g_switch_at = (i64)g_steps + fallback_q; *want = cur + 1; }
}
static void give_to(int n) {
  int me = cur;
  if (n == me) return;
  cur = n; sim_switches++;
  sim_sched_hash = mix64(mix64(sim_sched_hash, now_steps()), (u64)n);
  pthread_cond_signal(&ths[n].cv);
  if (me >= 0 && !ths[me].done) while (cur != me) pthread_cond_wait(&ths[me].cv, &baton);
}
static i64 cur_want;
static void sched_tick() {
  if (cur < 0) return;
  if (g_nopreempt) { g_switch_at = (i64)g_steps + 1; return; }
  int n = pick_next((int)cur_want);
  i64 w; arm_next(&w); cur_want = w;
  ev("switch", (u64)n);
  if (n >= 0) give_to(n);
}
static void force_switch() {
  if (!sched_on) return;
  g_steps = now_steps(); g_fuel_start = g_fuel;
  int n = pick_next(cur + 1);
  if (n == cur) sim_fatal(F_DEADLOCK, "all threads blocked");
  give_to(n);
  refill();
}
static void *th_main(void *a) {
  int me = (int)(intptr_t)a;
  pthread_mutex_lock(&baton);
  while (cur != me) pthread_cond_wait(&ths[me].cv, &baton);
  ths[me].body();
  ths[me].done = true;
  int n = pick_next(me + 1);
  if (n < 0) { all_done = true; cur = -1; pthread_cond_signal(&main_cv); }
  else { g_steps = now_steps(); g_fuel_start = g_fuel; i64 w; arm_next(&w); cur_want = w; refill(); give_to(n); }
  pthread_mutex_unlock(&baton);
  return nullptr;
}
void sim_run_threads(vector<std::function<void()>> bodies, const vector<SchedSlot> &sl, i64 fallback) {
  ths.clear(); ths.resize(bodies.size());
  slots = sl; slot_i = 0; fallback_q = std::max<i64>(1000, fallback); all_done = false; sim_sched_hash = 7; sim_switches = 0; cur = -1;
  for (size_t i = 0; i < bodies.size(); i++) { ths[i].body = bodies[i]; pthread_cond_init(&ths[i].cv, nullptr); }
  pthread_mutex_lock(&baton);
  for (size_t i = 0; i < bodies.size(); i++) pthread_create(&ths[i].t, nullptr, th_main, (void *)(intptr_t)i);
  sched_on = true; g_steps = now_steps(); g_fuel_start = g_fuel;
  i64 w; cur = -1; arm_next(&w); cur_want = w; refill();
  give_to(0);
  while (!all_done) pthread_cond_wait(&main_cv, &baton);
  sched_on = false; g_steps = now_steps(); g_fuel_start = g_fuel; refill();
  pthread_mutex_unlock(&baton);
  for (auto &t : ths) pthread_join(t.t, nullptr);
}
extern "C" {
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  step(); int spins = 0;
  while (pthread_mutex_trylock(m)) { if (!sched_on || ++spins > 100000) sim_fatal(F_DEADLOCK, "mutex never released"); force_switch(); }
  return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { step(); return pthread_mutex_trylock(m); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { step(); return pthread_mutex_unlock(m); }
int sim_pthread_once(pthread_once_t *o, void (*f)()) {
  static std::map<pthread_once_t *, int> st;
  int spins = 0;
  while (st[o] == 1) { if (!sched_on || ++spins > 100000) sim_fatal(F_DEADLOCK, "once never finished"); force_switch(); }
  if (st[o] == 2) return 0;
  st[o] = 1; f(); st[o] = 2; return 0;
}
}

// ================================================================ machine reset, SUT loading
void sim_reset() {
  G = new Sim;
  handles.clear(); open_files.clear();
  G->dirs = {"in", "out", "in/sub", "out/sub", "/", ".", "/tmp", "tmp"};
  cookie_io_functions_t so = {nullptr, so_write, nullptr, nullptr}, se = {nullptr, se_write, nullptr, nullptr}, si = {si_read, nullptr, nullptr, nullptr};
  sim_stdout = fopencookie(nullptr, "w", so); sim_stderr = fopencookie(nullptr, "w", se); sim_stdin = fopencookie(nullptr, "r", si);
  setvbuf(sim_stderr, nullptr, _IONBF, 0);
  setvbuf(sim_stdout, nullptr, _IOFBF, 4096);
}
vector<Sut> suts;
Sut &sut_by_name(const string &n) { for (auto &s : suts) if (s.name == n) return s; fprintf(stderr, "no SUT %s\n", n.c_str()); exit(2); }
void load_suts(const string &dir) {
  sim_edges = (u8 *)mmap(nullptr, MAXEDGES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (const char *n : {"split", "zero", "amalg"}) {
    Sut s; s.name = n; s.edge0 = sim_nedges + 1;
    string p = dir + "/libsut_" + n + ".so";
    s.dl = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!s.dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
    s.edge1 = sim_nedges;
#define X(nm, r, a) s.f.nm = (r (*) a)dlsym(s.dl, #nm); if (!s.f.nm && strcmp(#nm, "sort_corners")) { fprintf(stderr, "SUT %s lacks %s\n", n, #nm); exit(2); }
    API_LIST(X)
#undef X
    s.f.sut_main = (int (*)(int, char **))dlsym(s.dl, "sut_main");
    s.cli = s.f.sut_main != nullptr;
    suts.push_back(s);
  }
  (void)load_edge_first;
}
void sim_stdout_linebuf() { setvbuf(sim_stdout, nullptr, _IOLBF, 1024); }
extern "C" {
char *sim___strdup(const char *s) { return sim_strdup(s); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim__Exit(int c) { sim__exit(c); }
void sim_quick_exit(int c) { sim__exit(c); }
int sim_lstat(const char *p, struct stat *s) { return sim_stat(p, s); }
int sim_stat64(const char *p, struct stat *s) { return sim_stat(p, s); }
int sim_fstat64(int fd, struct stat *s) { return sim_fstat(fd, s); }
off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
FILE *sim_fmemopen(void *b, size_t n, const char *m) { FILE *f = fmemopen(b, n, m); if (f) open_files.push_back(f); return f; }
int sim_mkostemp(char *t, int) { return sim_mkstemp(t); }
void sim_cfree(void *p) { sim_free(p); }
void *sim_memalign(size_t a, size_t n) { return sim_aligned_alloc(a, n); }
}
