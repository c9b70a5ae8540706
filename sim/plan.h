// A plan is one simulated execution written down: workload, schedule and faults, all explicit.
// The same visitor saves it to a replay file, loads it, and enumerates the ways to shrink it.
#pragma once
#include "rt.h"
#include <cmath>

struct Ar {
  enum Mode { SAVE, LOAD, SHRINK } mode = SAVE;
  string prefix;
  string out;                       // SAVE
  std::map<string, string> kv;      // LOAD
  i64 target = -1, counter = 0; bool applied = false;  // SHRINK: apply the target-th possible simplification

  bool hit() { if (applied) return false; return counter++ == target && (applied = true); }
  string key(const char *n) { return prefix + n; }
  static string esc(const string &s) {
    string o; char t[8];
    for (u8 c : s) { if (c > 32 && c < 127 && c != '%') o += (char)c; else { snprintf(t, 8, "%%%02X", c); o += t; } }
    return o;
  }
  static string unesc(const string &s) {
    string o;
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; }
    return o;
  }
  void i(const char *n, i64 &v, i64 simplest = 0) {
    if (mode == SAVE) { if (v != simplest) out += key(n) + "=" + std::to_string(v) + "\n"; }
    else if (mode == LOAD) { auto it = kv.find(key(n)); v = it == kv.end() ? simplest : strtoll(it->second.c_str(), nullptr, 10); }
    else if (v != simplest) {
      i64 c[3] = {simplest, simplest + (v - simplest) / 2, v > simplest ? v - 1 : v + 1}; i64 last = v;
      i64 orig = v;
      for (i64 x : c) if (x != orig && x != last) { if (hit()) { v = x; return; } last = x; }
    }
  }
  void u(const char *n, u64 &v, u64 simplest = 0) { i64 t = (i64)v; i(n, t, (i64)simplest); v = (u64)t; }
  void seed(const char *n, u64 &v) {  // only 1 is simpler
    if (mode == SHRINK) { if (v != 1 && hit()) v = 1; return; }
    u(n, v, 0);
  }
  void d(const char *n, double &v) {
    if (mode == SAVE) { char t[64]; snprintf(t, 64, "%.17g", v); if (v != 0 || std::signbit(v)) out += key(n) + "=" + t + "\n"; }
    else if (mode == LOAD) { auto it = kv.find(key(n)); v = it == kv.end() ? 0 : strtod(it->second.c_str(), nullptr); }
    else if (v != 0) { double c[3] = {0, (double)(i64)v, (double)(i64)(v / 2)}; double orig = v; double last = v; for (double x : c) if (x != orig && x != last) { if (hit()) { v = x; return; } last = x; } }
  }
  void s(const char *n, string &v) {
    if (mode == SAVE) { if (!v.empty()) out += key(n) + "=" + esc(v) + "\n"; }
    else if (mode == LOAD) { auto it = kv.find(key(n)); v = it == kv.end() ? "" : unesc(it->second); }
    else if (!v.empty()) { if (hit()) { v.clear(); return; } if (v.size() > 1) { if (hit()) { v.resize(v.size() / 2); return; } if (hit()) { v.pop_back(); return; } } }
  }
  template <class T> void vec(const char *n, vector<T> &v) {
    string save = prefix;
    i64 cnt = (i64)v.size();
    if (mode == SHRINK) {
      if (cnt > 3) { if (hit()) { v.resize(cnt / 2); return; } if (hit()) { v.erase(v.begin(), v.begin() + cnt / 2); return; } }
      for (i64 k = 0; k < cnt && k < 64; k++) if (hit()) { v.erase(v.begin() + k); return; }
    }
    else { string c = string(n) + ".n"; i(c.c_str(), cnt); if (mode == LOAD) v.resize((size_t)std::min<i64>(std::max<i64>(cnt, 0), 1000000)); }
    for (size_t k = 0; k < v.size() && !(mode == SHRINK && k > 64); k++) { prefix = save + n + "." + std::to_string(k) + "."; v[k].io(*this); }
    prefix = save;
  }
  template <class T> void sub(const char *n, T &v) { string save = prefix; prefix = save + n + "."; v.io(*this); prefix = save; }
};

struct ImgSpec {
  i64 w = 1, h = 1, pat = 0; u64 seed = 1;
  void io(Ar &a) { a.i("w", w, 1); a.i("h", h, 1); a.i("pat", pat); a.seed("seed", seed); }
};
struct Pt { double x = 0, y = 0; void io(Ar &a) { a.d("x", x); a.d("y", y); } };
struct Call {                 // one library call
  i64 fn = 0; ImgSpec img; i64 ch = 4;
  i64 p[4] = {0, 0, 0, 0}; double d[3] = {0, 0, 0}; string s1, s2; vector<Pt> pts;
  i64 fk = 0, fa = 0, fb = 0;  // allocation faults while it runs (C04, C05 histories)
  void io(Ar &a) {
    if (a.mode != Ar::SHRINK) a.i("fn", fn, -1); a.sub("img", img); if (a.mode != Ar::SHRINK) a.i("ch", ch, 4);
    a.i("p0", p[0]); a.i("p1", p[1]); a.i("p2", p[2]); a.i("p3", p[3]); a.d("d0", d[0]); a.d("d1", d[1]); a.d("d2", d[2]);
    a.s("s1", s1); a.s("s2", s2); a.vec("pts", pts); if (a.mode == Ar::SHRINK) { if (fk && a.hit()) fk = 0; } else a.i("fk", fk); a.i("fa", fa); a.i("fb", fb);
  }
};
struct FaultSet { i64 kind = 0, a = 0, b = 0; void io(Ar &x) { if (x.mode != Ar::SHRINK) x.i("kind", kind); x.i("a", a); x.i("b", b); } };
struct ThreadPlan { vector<Call> calls; void io(Ar &a) { a.vec("calls", calls); } };
struct Slot { i64 quantum = 1, next = 0; void io(Ar &a) { a.i("q", quantum, 1); a.i("next", next); } };

struct OpSpec {               // one operation of a command line pipeline
  i64 op = 0; double d[4] = {0, 0, 0, 0}; string s; vector<Pt> pts; i64 style = 0;
  void io(Ar &a) { if (a.mode != Ar::SHRINK) a.i("op", op, -1); a.d("d0", d[0]); a.d("d1", d[1]); a.d("d2", d[2]); a.d("d3", d[3]); a.s("s", s); a.vec("pts", pts); a.i("style", style); }
};
struct Damage { i64 kind = 0, pos = 0, len = 1, val = 0; void io(Ar &a) { if (a.mode != Ar::SHRINK) a.i("kind", kind); a.i("pos", pos); a.i("len", len, 1); a.i("val", val); } };
struct DiskFault {
  i64 op = 0, nth = 0, err = 0, partial = 0, sticky = 0, where = 0;
  void io(Ar &a) { if (a.mode != Ar::SHRINK) { a.i("op", op); a.i("err", err); a.i("where", where); } a.i("nth", nth); a.i("partial", partial); a.i("sticky", sticky); }
};
struct CliPlan {
  ImgSpec img; i64 fmt = 0, ncomp = 4, orient = 0, exif = 0;
  vector<Damage> damage;
  vector<OpSpec> ops; i64 spelling = 0;
  i64 inpath = 0, outpath = 0, preexist = 0, badargs = 0;
  i64 fk = 0, fa = 0, fb = 0;
  vector<DiskFault> df; i64 capacity = -1; u64 short_seed = 0;
  i64 out_cap = -1, err_cap = -1, out_errno = 32, out_linebuf = 0; i64 clock_mode = 0;
  i64 kill_step = 0, kill_io = 0, kill_partial = 0; i64 mem_cap = 0; i64 variant = 0; u64 junk = 1;
  void io(Ar &a) {
    a.sub("img", img);
    if (a.mode != Ar::SHRINK) { a.i("fmt", fmt); a.i("ncomp", ncomp, 4); }
    a.i("orient", orient); a.i("exif", exif); a.vec("damage", damage); a.vec("ops", ops); a.i("spelling", spelling);
    if (a.mode != Ar::SHRINK) { a.i("inpath", inpath); a.i("outpath", outpath); a.i("badargs", badargs); }
    a.i("preexist", preexist);
    if (a.mode == Ar::SHRINK) { if (fk && a.hit()) fk = 0; } else a.i("fk", fk);
    a.i("fa", fa); a.i("fb", fb); a.vec("df", df);
    if (a.mode == Ar::SHRINK) { if (capacity != -1 && a.hit()) capacity = -1; if (out_cap != -1 && a.hit()) out_cap = -1; if (err_cap != -1 && a.hit()) err_cap = -1; if (short_seed && a.hit()) short_seed = 0; if (clock_mode && a.hit()) clock_mode = 0; if (out_linebuf && a.hit()) out_linebuf = 0; }
    else { a.i("capacity", capacity, -1); a.i("out_cap", out_cap, -1); a.i("err_cap", err_cap, -1); a.u("short_seed", short_seed); a.i("clock_mode", clock_mode); a.i("out_errno", out_errno, 32); a.i("out_linebuf", out_linebuf); }
    a.i("kill_step", kill_step); a.i("kill_io", kill_io); a.i("kill_partial", kill_partial);
    if (a.mode != Ar::SHRINK) { a.i("mem_cap", mem_cap); a.i("variant", variant); a.u("junk", junk, 1); }
  }
};
struct Plan {
  string prop;
  vector<Call> calls;          // C01-C03: one call; C05: history then target
  vector<FaultSet> faults;     // C01-C03
  vector<ThreadPlan> threads;  // C04
  vector<Slot> slots; i64 share = 0; i64 fallback = 20000;
  CliPlan cli; i64 has_cli = 0;
  vector<FaultSet> cuts;       // C11: positions where the pipeline is cut
  i64 repeat = 0;              // C14
  u64 junk = 1, junk2 = 2; i64 variant = 0;
  void io(Ar &a) {
    if (a.mode != Ar::SHRINK) a.s("prop", prop);
    a.vec("calls", calls); a.vec("faults", faults); a.vec("threads", threads); a.vec("slots", slots); a.i("share", share); if (a.mode != Ar::SHRINK) a.i("fallback", fallback, 20000);
    if (a.mode != Ar::SHRINK) a.i("has_cli", has_cli);
    if (has_cli) a.sub("cli", cli);
    a.vec("cuts", cuts); a.i("repeat", repeat); a.seed("junk", junk); a.seed("junk2", junk2); a.i("variant", variant);
  }
};
static inline string save_plan(const Plan &p) { Ar a; Plan q = p; q.io(a); return a.out; }
static inline Plan load_plan(const string &t) {
  Ar a; a.mode = Ar::LOAD; size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == string::npos) e = t.size();
    string l = t.substr(i, e - i); i = e + 1;
    if (l.empty() || l[0] == '#') continue;
    size_t q = l.find('='); if (q == string::npos) continue;
    a.kv[l.substr(0, q)] = l.substr(q + 1);
  }
  Plan p; p.io(a); return p;
}
static inline bool shrink_plan(Plan &p, i64 k) { Ar a; a.mode = Ar::SHRINK; a.target = k; p.io(a); return a.applied; }

// ---------------------------------------------------------------- verdicts and statistics
struct Verdict {
  string cls;      // "" = held; otherwise the kind of violation, e.g. "crash", "leak"
  string detail;
  bool harness = false;   // infrastructure trouble, no answer
};
struct Stats {
  u64 runs = 0, steps = 0, calls = 0, plans = 0; std::map<string, u64> fired, kinds; std::set<u64> states; std::set<u64> sched;
  u64 trace = 0;
  void child(const ChildResult &r) { trace = mix64(mix64(trace, r.evhash), (u64)r.fate * 1000 + (u64)r.code); runs++; steps += r.steps; for (auto &x : r.fired) fired[x.first] += x.second; }
};
extern Stats ST;
struct Dict { vector<i64> ints; vector<double> floats; };
extern Dict DICT; extern u64 SHARD;

// img.cpp
string make_image(const ImgSpec &s, i64 ch);                       // pixels
string make_file(const CliPlan &c);                                // encoded input file (before damage)
string apply_damage(string f, const vector<Damage> &d);
struct Pixels { bool ok = false; i64 w = 0, h = 0; string px; };   // RGBA
Pixels decode_rgba(const string &file);                            // vendored decoder
string encode_jpeg90(const Pixels &p);
int my_exif_orientation(const string &file);
Pixels orient_pixels(const Pixels &p, int orient);

// lib.cpp
extern const char *fn_names[]; extern const int n_fns;
struct Outcome { bool failed = false; string bytes; string viol; string violcls; u64 allocs = 0, steps = 0; };
Outcome exec_call(const Api &f, const Call &c, const struct SharedArgs *sh = nullptr);
Call gen_call(Rng &r, int fn, bool small);
Verdict check_lib(const Plan &p);
Plan gen_lib(const string &prop, Rng &r, u64 index);
void mutate_lib(Plan &p, Rng &r);
// cli.cpp
Verdict check_cli(const Plan &p);
Plan gen_cli(const string &prop, Rng &r, u64 index);
void mutate_cli(Plan &p, Rng &r);
string cli_trace(const Plan &p);
i64 gen_dim(Rng &r, bool small);
ImgSpec gen_img(Rng &r, bool small);
extern bool NOMEMO; extern bool TRACE; extern string TRACE_OUT;
