// Simulator runtime: every effect the system under test (SUT) has on the outside
// world arrives here (see build.py for the link-time redirection of its symbols).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <vector>
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
using std::string;
using std::vector;

// ---------------------------------------------------------------- PRNG
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  u64 next() {  // splitmix64
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return b <= a ? a : a + (i64)below((u64)(b - a + 1)); }
  bool chance(int percent) { return (int)below(100) < percent; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};
static inline u64 mix64(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull);
static inline u64 hash_str(const string &s) { return hash_bytes(s.data(), s.size()); }

// ---------------------------------------------------------------- serialisation
struct Out {
  string b;
  void u(u64 v) { b.append((char *)&v, 8); }
  void s(const string &x) { u(x.size()); b += x; }
};
struct In {
  const string &b;
  size_t p = 0;
  bool bad = false;
  explicit In(const string &x) : b(x) {}
  u64 u() { if (p + 8 > b.size()) { bad = true; return 0; } u64 v; memcpy(&v, &b[p], 8); p += 8; return v; }
  string s() { u64 n = u(); if (bad || n > b.size() || p + n > b.size()) { bad = true; return ""; } string r = b.substr(p, n); p += n; return r; }
};

// ---------------------------------------------------------------- faults
struct AFault {   // which allocations fail
  enum Kind { NONE, SINGLE, FROM, PAIR, MASK, SIZE, CAP, EVERY, KINDS } ;
  i64 kind = NONE;
  i64 a = 0, b = 0;  // indices are taken modulo the number of allocations of the fault-free call
};
struct DFault {   // one disk fault
  string op;      // open read write close seek
  i64 nth = 0;    // which operation of that kind in the run (0-based)
  i64 err = 5;    // errno
  i64 partial = 0;  // bytes transferred before the failure (write/read)
  i64 sticky = 0;   // all later ones fail, too
  string path;      // only operations on this path count ("" = any)
};

// ---------------------------------------------------------------- run state
enum Fate { F_RUNNING, F_RETURN, F_EXIT, F_ABORT, F_ASSERT, F_KILLED, F_HANG, F_HEAP, F_DEADLOCK, F_ASAN, F_SIGNAL, F_TIMEOUT, F_HARNESS };
extern const char *fate_name[];
static inline bool fate_crash(Fate f) {
  return f == F_ABORT || f == F_ASSERT || f == F_HANG || f == F_HEAP || f == F_DEADLOCK || f == F_ASAN || f == F_SIGNAL;
}

struct Block { size_t size; u64 id; u64 tag; };
struct AWin { AFault af; u64 n = 1; u64 idx = 0; u64 failed = 0; u64 tag = 0; };   // fault window of one thread
struct Node { string data; u64 mode = 0644; };

struct Sim {
  // allocator
  std::unordered_map<void *, Block> live;
  u64 junk = 1; i64 pad = 0;
  u64 allocs = 0, allocs_failed = 0, frees = 0;
  u64 live_bytes = 0, peak_bytes = 0, max_request = 0;
  AWin win[17];
  u64 mem_cap = 1ull << 30; // bytes
  // disk
  std::map<string, std::shared_ptr<Node>> fs;
  std::set<string> dirs;
  vector<DFault> df; vector<u64> df_count, df_fired;
  i64 disk_capacity = -1;   // bytes that can still be written, -1 = unlimited
  u64 short_seed = 0;       // nonzero: reads/writes are fragmented
  std::map<string, u64> nops;
  std::map<string, u64> fired;  // fault kind -> count
  std::map<string, string> touched;  // path -> operations that changed something there
  // console
  string out, err;
  i64 out_cap = -1, err_cap = -1;  // bytes before the stream fails
  i64 out_errno = 32;
  i64 out_linebuf = 0;
  u64 out_lost = 0;
  // clock
  u64 clock_mode = 0; i64 clock_now = 0; u64 clock_calls = 0; u64 rnd = 88172645463325252ull;
  // ending
  vector<void (*)()> atexits;
  bool process_mode = false;  // exit() is a legal way to end
  // steps
  u64 kill_io = 0; u64 kill_partial = 0; u64 io_events = 0;
  // trace
  u64 evhash = 0; u64 events = 0;
  string trace; bool trace_on = false;
};
extern Sim *G;
void sim_reset();                                      // fresh simulated machine

void ev(const char *kind, u64 a = 0, u64 b = 0);      // event log
u64 sim_steps();                                       // basic blocks executed so far
void sim_set_budget(i64 more, i64 kill_in);            // step clock: hang after, kill after (0 = never)
[[noreturn]] void sim_fatal(Fate f, const string &msg, int code = 0);// end the simulated process
extern u8 *&sim_edges;  extern u32 sim_nedges;   // edge map (shared memory)
extern u64 sim_sched_hash; extern u64 sim_switches;

// threads under the baton
struct SchedSlot { i64 quantum; i64 next; };
void sim_run_threads(vector<std::function<void()>> bodies, const vector<SchedSlot> &slots, i64 fallback);
int sim_current_thread();

// ---------------------------------------------------------------- SUT variants
#include "api.h"
struct Sut { string name; void *dl = nullptr; Api f; bool cli = false; u32 edge0 = 0, edge1 = 0; };
extern vector<Sut> suts;
Sut &sut_by_name(const string &n);
void load_suts(const string &dir);

// ---------------------------------------------------------------- child processes
struct ChildResult {
  Fate fate = F_HARNESS; int code = 0; string msg; string report; u64 steps = 0;
  std::map<string, u64> fired; u64 evhash = 0, events = 0; string trace;
};
void child_init();   // once per worker
// Runs body in a forked child; body returns the report. fate F_RETURN when it came back.
ChildResult run_child(const std::function<string()> &body, int wall_s = 100);
extern std::function<string()> fatal_report;  // used by sim_fatal to build the report of a process that ended
string asan_summary(const string &msg);
