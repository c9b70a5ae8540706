// Worker: one shard of a seeded search, or the replay of one plan.
#include "plan.h"
#include <sys/personality.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>
#include <fstream>
#include <sstream>
Stats ST; Dict DICT; u64 SHARD; bool NOMEMO;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string slurp(const string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static bool is_lib(const string &p, const Plan &q) { return !q.has_cli; (void)p; }
static Verdict check(const Plan &p) { return is_lib(p.prop, p) ? check_lib(p) : check_cli(p); }
static Plan gen(const string &prop, Rng &r, u64 index) {
  if (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04") return gen_lib(prop, r, index);
  if (prop == "C05") return index >= 41 && r.chance(30) ? gen_cli(prop, r, index) : gen_lib(prop, r, index);
  return gen_cli(prop, r, index);
}
static string js(const string &s) { string o = "\""; for (u8 c : s) { char t[8]; if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(t, 8, "\\u%04x", c); o += t; } else o += (char)c; } return o + "\""; }
static u64 virgin_hits; static vector<u8> virgin;
static u32 new_edges() { u32 n = 0; for (u32 i = 0; i <= sim_nedges; i++) if (sim_edges[i]) { if (!virgin[i]) { virgin[i] = 1; n++; } sim_edges[i] = 0; } virgin_hits += n; return n; }

static Plan minimise(Plan p, const string &cls, double budget, u64 &tried) {
  double end = now() + budget; bool progress = true; tried = 0; NOMEMO = false;
  while (progress && now() < end && tried < 3000) {
    progress = false;
    for (i64 k = 0; now() < end && tried < 3000; k++) {
      Plan q = p; if (!shrink_plan(q, k)) break;
      if (save_plan(q) == save_plan(p)) continue;
      tried++; Verdict v = check(q);
      if (v.cls == cls && !v.harness) { p = q; progress = true; k = -1; if (tried > 400) k = k; break; }
    }
  }
  return p;
}
int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE)) { if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  std::map<string, string> o; string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
  load_suts(o["dir"]); child_init(); virgin.assign(1 << 18, 0);
  { std::ifstream f(o["dir"] + "/dict.txt"); string k; double v; long n; while (f >> k >> v >> n) { if (k == "i") { if (v >= -100000 && v <= 100000) DICT.ints.push_back((i64)v); } else DICT.floats.push_back(v); } }
  if (mode == "replay") {
    Plan p = load_plan(slurp(o["file"])); TRACE = o["trace"] == "1"; NOMEMO = true;
    Verdict v = check(p);
    if (TRACE) printf("%s", TRACE_OUT.c_str());
    printf("%s\n%s\nhash %016llx\n", v.harness ? "HARNESS" : v.cls.empty() ? "HELD" : ("VIOLATED " + v.cls).c_str(), v.detail.c_str(), (unsigned long long)ST.trace);
    return v.harness ? 2 : v.cls.empty() ? 0 : 1;
  }
  if (mode != "run") { fprintf(stderr, "usage: simbin run|replay --dir D ...\n"); return 2; }
  string prop = o["prop"]; u64 seed = strtoull(o["seed"].c_str(), nullptr, 10), shard = strtoull(o["shard"].c_str(), nullptr, 10), runs = strtoull(o["runs"].c_str(), nullptr, 10); SHARD = shard;
  double wall = atof(o["wall"].c_str()), t0 = now(); double minb = o.count("min") ? atof(o["min"].c_str()) : 40;
  vector<string> known; { std::ifstream f(o["known"]); string l; while (std::getline(f, l)) if (l.compare(0, prop.size() + 1, prop + "\t") == 0) known.push_back(l.substr(prop.size() + 1)); }
  Rng r(mix64(mix64(seed, hash_str(prop)), shard + 1));
  vector<Plan> corpus; u64 index = 0, gate = 0, gate_bad = 0, harness = 0; Verdict found; Plan bad; string harness_text; std::map<string, u64> known_hits; vector<string> samples; u64 tried = 0; double tviol = 0; bool confirmed = true;
  for (; index < runs && now() - t0 < wall; index++) {
    bool mut = !corpus.empty() && index > 60 && r.chance(30);
    Plan p; 
    if (mut) { p = corpus[r.below(corpus.size())]; if (p.has_cli) mutate_cli(p, r); else mutate_lib(p, r); }
    else p = gen(prop, r, index);
    string text = save_plan(p);
    u64 before = ST.trace; (void)before; ST.trace = 0;
    NOMEMO = index % 97 == 5; 
    Verdict v = check(p);
    ST.plans++;
    if (NOMEMO && v.cls.empty() && !v.harness) { u64 h = ST.trace; ST.trace = 0; check(p); gate++; if (ST.trace != h) { gate_bad++; if (harness_text.empty()) harness_text = "not repeatable: " + text.substr(0, 3000); } }
    if (samples.size() < 3 && index % 37 == 11) samples.push_back(text.substr(0, 1200));
    u32 ne = new_edges(); if (ne && corpus.size() < 2000 && v.cls.empty() && !v.harness) corpus.push_back(p);
    if (v.harness) { harness++; if (harness_text.empty()) harness_text = v.detail; continue; }
    if (!v.cls.empty()) {
      bool k = false; for (auto &s : known) if (v.detail.find(s) != string::npos) { known_hits[s]++; k = true; }
      if (k) continue;
      NOMEMO = true; Verdict again = check(p);     // the same plan must give the same verdict
      if (again.cls != v.cls) { gate_bad++; harness++; if (harness_text.empty()) harness_text = "verdict not repeatable: " + v.cls + " / " + again.cls + ": " + v.detail + "\n" + text.substr(0, 3000); continue; }
      found = v; bad = p; tviol = now() - t0; break;
    }
  }
  double t1 = now();
  if (!found.cls.empty()) {
    { std::ofstream g(o["viol"] + ".orig"); g << save_plan(bad); }
    Plan m = minimise(bad, found.cls, minb, tried);
    NOMEMO = true; Verdict v = check(m); if (v.cls == found.cls) { found = v; bad = m; }
    std::ofstream f(o["viol"]); 
    string d = found.detail; for (auto &c : d) if (c == '\n') c = ' ';
    f << "# FlatCV simulation plan; replay: python3 check.py " << prop << " --replay <this file>\n# property " << prop << " violated: " << found.cls << "\n# " << d << "\n# found by seed " << seed << " shard " << shard << " plan " << index << ", " << tried << " simplifications tried\n" << save_plan(bad);
  }
  std::ofstream f(o["out"]);
  f << "{\"shard\":" << shard << ",\"plans\":" << ST.plans << ",\"index\":" << index << ",\"runs\":" << ST.runs << ",\"steps\":" << ST.steps << ",\"calls\":" << ST.calls << ",\"wall\":" << (t1 - t0) << ",\"states\":[";
  { bool c = false; for (u64 s : ST.states) { f << (c ? "," : "") << s; c = true; } }
  f << "],\"sched\":["; { bool c = false; for (u64 s : ST.sched) { f << (c ? "," : "") << s; c = true; } }
  f << "],\"edges\":["; { bool c = false; for (u32 i = 0; i < virgin.size(); i++) if (virgin[i]) { f << (c ? "," : "") << i; c = true; } }
  f << "],\"nedges\":" << sim_nedges << ",\"corpus\":" << corpus.size() << ",\"gate\":" << gate << ",\"gate_bad\":" << gate_bad << ",\"harness\":" << harness << ",\"harness_text\":" << js(harness_text);
  f << ",\"fired\":{"; { bool c = false; for (auto &x : ST.fired) { f << (c ? "," : "") << js(x.first) << ":" << x.second; c = true; } }
  f << "},\"kinds\":{"; { bool c = false; for (auto &x : ST.kinds) { f << (c ? "," : "") << js(x.first) << ":" << x.second; c = true; } }
  f << "},\"known\":{"; { bool c = false; for (auto &x : known_hits) { f << (c ? "," : "") << js(x.first) << ":" << x.second; c = true; } }
  f << "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << js(samples[i]);
  f << "],\"violation\":" << (found.cls.empty() ? "null" : js(found.cls)) << ",\"detail\":" << js(found.detail) << ",\"found_after\":" << tviol << "}\n";
  return found.cls.empty() ? 0 : 1;
}
