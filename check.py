#!/usr/bin/env python3
"""check.py <property> [--thorough] [--seed N] [--wall S]      decide one property by simulation
check.py <property> --replay FILE [--trace]               run one replay file again
check.py --setup                                          build only

Exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not run."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/sim")
import build as B
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
# plans per shard in the quick tier (about a minute of 8 cores), wall cap far above it
RUNS = {"C01": 900, "C02": 900, "C03": 900, "C04": 1200, "C05": 2000, "C06": 1600, "C07": 2000, "C08": 2400, "C09": 450, "C10": 5600, "C11": 340, "C13": 50, "C14": 700}
QUICK_WALL, THOROUGH_WALL = 260, 1500

REAL = {
    "lib": ["every .c file of /repo/src except cli.c, compiled from the working tree (also as the single-file amalgamation the makefile generates)"],
    "cli": ["all of /repo/src including cli.c with its main(), argument parser, pipeline executor and EXIF reader", "include/stb_image.h and include/stb_image_write.h (decoders and encoders)", "glibc stdio buffering (FILE objects over the simulated disk)"],
}
STUB = ["malloc/calloc/realloc/free and relatives: simulated allocator over AddressSanitizer's (fills, places, counts and fails allocations)",
        "open/read/write/close/seek/unlink/rename...: simulated disk (in memory)", "stdout/stderr: simulated consoles", "clock/time/gettimeofday: simulated clock",
        "exit/abort/atexit/assert: end of the simulated process", "threads: baton scheduler at basic block granularity (C04)", "rand/getenv/getpid: simulated"]
RULE = {
    "lib": "A case is a plan drawn from the seed: an exported function, an image and parameters, and sets of failing allocations (one, from one on, two, random subset, by size, memory cap, every n-th); it is executed undisturbed, then under each fault set, then retried. Counted as distinct: different (function, result, number of allocations, number of failures, outcome) tuples.",
    "C04": "A case is a plan drawn from the seed: 2-4 threads with 1-3 library calls each and a list of (quantum, next thread) decisions; each call is also executed alone. Counted as distinct: different interleavings, hashed over (step, thread) of every switch.",
    "C05": "A case is a plan drawn from the seed: a target call (or command line run), executed in two simulated processes that differ in the calls made before (also failing ones), memory contents and placement, clock and build form. Counted as distinct: different (function, result) pairs.",
    "cli": "A case is a plan drawn from the seed: an input file (format, EXIF, size, damage), a pipeline with spelling, output path, and faults; the whole command line tool runs on it undisturbed and disturbed, on a simulated machine. Counted as distinct: different (exit status, messages, number of allocations and I/O operations, output) tuples.",
}


def known_findings():
    """known: property=<id> <substring of the violation's description>"""
    out = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property="):
                pid, _, rest = l[len("known: property="):].strip().partition(" ")
                out.append((pid, rest))
    return out


def simulate(prop, d, seed, runs, wall, minimise, tmp):
    with open(tmp + "/known", "w") as f:
        for pid, t in known_findings():
            f.write("%s\t%s\n" % (pid, t))
    procs = []
    for s in range(SHARDS):
        o, v = "%s/o%d.json" % (tmp, s), "%s/v%d.plan" % (tmp, s)
        procs.append((s, subprocess.Popen([d + "/simbin", "run", "--dir", d, "--prop", prop, "--seed", str(seed), "--shard", str(s), "--runs", str(runs), "--wall", str(wall), "--min", str(minimise), "--out", o, "--viol", v, "--known", tmp + "/known"],
                                          stdout=subprocess.DEVNULL, stderr=open("%s/e%d" % (tmp, s), "w"), start_new_session=True), o, v))
    res, hit, errors = {}, None, []
    pending = list(procs)
    deadline = time.time() + wall + minimise + 240
    while pending:
        for t in list(pending):
            s, p, o, v = t
            rc = p.poll()
            if rc is None:
                continue
            pending.remove(t)
            try:
                res[s] = json.load(open(o))
            except Exception as e:
                errors.append("shard %d ended with %s: %s" % (s, rc, open("%s/e%d" % (tmp, s)).read()[-500:]))
                continue
            if res[s]["violation"] and hit is None:
                hit = (s, v)
        if hit or time.time() > deadline:
            break
        time.sleep(0.05)
    for s, p, o, v in pending:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    return res, hit, errors


def replay(d, path, trace=False):
    p = subprocess.run([d + "/simbin", "replay", "--dir", d, "--file", path] + (["--trace", "1"] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        print(B.build(HERE, REPO))
        import hs
        print(hs.build())
        return 0
    prop = a[0]
    opt = lambda n, dflt=None: a[a.index(n) + 1] if n in a else dflt
    if prop == "C12":
        import hs
        return hs.main(a)
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    t0 = time.time()
    d = B.build(HERE, REPO)
    t1 = time.time()
    if "--replay" in a:
        rc, out = replay(d, opt("--replay"), "--trace" in a)
        print(out, end="")
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, opt("--replay")))
        return rc
    wall = float(opt("--wall", QUICK_WALL if tier == "quick" else THOROUGH_WALL))
    runs = RUNS[prop] if tier == "quick" and "--wall" not in a else 10 ** 9
    tmp = tempfile.mkdtemp(prefix="fcvsim")
    try:
        res, hit, errors = simulate(prop, d, seed, runs, wall, 40 if tier == "quick" else 120, tmp)
        t2 = time.time()
        viol = None
        rdir = HERE + "/evidence/replay"
        os.makedirs(rdir, exist_ok=True)
        unconfirmed = ""
        if hit:
            s, v = hit
            dst = "%s/%s-seed%d-shard%d.plan" % (rdir, prop, seed, s)
            shutil.copy(v, dst)
            r1, r2 = replay(d, dst), replay(d, dst)
            if r1[0] != 1 or r1 != r2:       # the minimised plan does not repeat in a new process: use the plan as found
                if os.path.exists(v + ".orig"):
                    shutil.copy(v + ".orig", dst)
                    r1, r2 = replay(d, dst), replay(d, dst)
            if r1[0] == 1:
                viol = {"class": r1[1].splitlines()[0], "detail": "\n".join(r1[1].splitlines()[1:-1])[:3000], "replay": dst, "replay_hash": r1[1].splitlines()[-1], "replayed_twice_identically": r1 == r2, "found_after_s": res[s]["found_after"], "shard": s}
            else:
                unconfirmed = res[s]["detail"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if errors and res:
        print("note: %d of %d shards ended early: %s" % (len(errors), SHARDS, errors[0][-300:]))
    if not res:
        print("\n".join(errors), file=sys.stderr)
        print("the simulation could not run", file=sys.stderr)
        return 2
    R = list(res.values())
    S = lambda k: sum(r[k] for r in R)
    add = lambda k: {n: sum(r[k].get(n, 0) for r in R) for n in sorted({n for r in R for n in r[k]})}
    states = len(set().union(*[set(r["states"]) for r in R])); sched = len(set().union(*[set(r["sched"]) for r in R])); edges = len(set().union(*[set(r["edges"]) for r in R]))
    simwall = max(t2 - t1, 0.001)
    kind = "lib" if prop in ("C01", "C02", "C03") else prop if prop in ("C04", "C05") else "cli"
    known = add("known")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "evaluations": S("runs"), "distinct_nontrivial": sched if prop == "C04" else states, "rule": RULE[kind],
            "samples": [x for r in R[:2] for x in r["samples"][:2]],
            "plans": S("plans"), "calls_or_tool_runs": S("calls"), "simulated_steps": S("steps"), "simulated_time_note": "time is counted in steps: basic blocks of the code under test executed; the simulated clock itself is a fault source",
            "runs_per_hour": int(S("runs") / simwall * 3600), "plans_per_hour": int(S("plans") / simwall * 3600), "seeds": SHARDS, "seed_streams_per_hour": int(SHARDS / simwall * 3600),
            "faults_injected": add("fired"), "workload": add("kinds"), "distinct_states": states, "distinct_interleavings": sched,
            "code_edges_reached": edges, "code_edges_total_all_builds": max(r["nedges"] for r in R),
            "determinism_gate": {"plans_executed_twice": S("gate"), "different_traces": S("gate_bad")},
            "no_answer_runs": S("harness"), "no_answer_example": next((r["harness_text"] for r in R if r["harness_text"]), "")[:1500],
            "shards_lost": errors, "real_components": REAL["cli" if kind in ("cli", "C05") else "lib"], "stubbed_components": STUB,
            "violation": viol, "unconfirmed_by_replay": unconfirmed,
            "build_s": round(t1 - t0, 2), "simulation_s": round(simwall, 2), "seams": json.load(open(d + "/seams.json")),
        },
        "assumptions": ["single-core sequentially consistent interleavings at basic-block granularity", "the simulated disk and allocator behave as POSIX and ISO C allow", "images of up to some thousand pixels stand for larger ones"],
        "violations": 1 if viol else 0,
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)
    for pid, text in known_findings():
        if pid == prop:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    c = ev["coverage"]
    print("%s: %d plans, %d simulated runs, %d distinct, %d edges, faults %s, %.0f s (build %.0f s), gate %d/%d differ, no answer %d" % (prop, c["plans"], c["evaluations"], c["distinct_nontrivial"], edges, sum(v for v in c["faults_injected"].values()), simwall, t1 - t0, S("gate_bad"), S("gate"), S("harness")))
    for r in R:
        if r["harness_text"]:
            print("note: shard %d: %s" % (r["shard"], r["harness_text"][:300].replace("\n", " | ")))
            break
    if unconfirmed:
        print("note: not confirmed by replay: " + unconfirmed[:500])
    if viol:
        print(viol["class"] + ": " + viol["detail"])
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
