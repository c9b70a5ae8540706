#!/usr/bin/env python3
"""C12: the Haskell bindings above a simulated allocator, garbage collector schedule and file.

Interface as check.py: hs.main(args) decides the property, hs.main([... "--replay", FILE]) executes one plan."""
import glob, hashlib, json, os, random, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE + "/sim")
import build as B

SHARDS, QUICK_PLANS, QUICK_WALL, THOROUGH_WALL = 8, 6000, 240, 780
SAFE_INSIDE = re.compile(r"foreign\s+import\s+(?:ccall|capi)\s+unsafe\s+\"[^\"]*fcv_")


def build(log=lambda *a: None):
    pkg = REPO + "/bindings/flatcv-hs"
    srcs = B.listing(pkg + "/src", (".hs", ".chs"))
    key = B.tree_hash(B.sut_inputs(REPO) + srcs + B.listing(HERE + "/hs", (".hs", ".c")) + [HERE + "/hs.py"])
    root = HERE + "/build"
    os.makedirs(root, exist_ok=True)
    out = root + "/hs-" + key
    if os.path.exists(out + "/ok"):
        os.utime(out)
        return out
    for d in sorted(glob.glob(root + "/hs-*"), key=os.path.getmtime)[:-2]:
        if time.time() - os.path.getmtime(d) > 1500: shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/tree"); os.makedirs(out + "/src"); os.makedirs(out + "/o")
    for f in ("src", "include"):
        shutil.copytree(REPO + "/" + f, out + "/tree/" + f)
    for f in ("makefile", "license.txt"):
        shutil.copy(REPO + "/" + f, out + "/tree")
    B.sh(["make", "-B", "-s", "CC=gcc", "flatcv.h", "flatcv.c"], cwd=out + "/tree")
    shutil.copytree(pkg + "/src", out + "/src", dirs_exist_ok=True)
    for f in B.listing(out + "/src", (".chs",)):
        rel = os.path.relpath(f, out + "/src")
        B.sh(["c2hs", "-C", "-I" + out + "/tree", rel, "-o", rel[:-4] + ".hs"], cwd=out + "/src")
        os.unlink(f)
    unsafe = any(SAFE_INSIDE.search(open(f).read()) for f in B.listing(out + "/src", (".hs",)))
    own = {os.path.relpath(f, out + "/src")[:-3] for f in B.listing(out + "/src", (".hs",))}
    exts = re.findall(r"^\s+default-extensions:\s*\n((?:\s+\w+,?\s*\n)+)", open(pkg + "/flatcv.cabal").read(), re.M)
    flags = ["-X" + e.strip(" ,") for e in (exts[0].split() if exts else ["RecordWildCards"])]
    # unsafe imports cannot be re-entered by the collector: then nothing is injected inside of C calls
    B.sh(["ghc", "--make", "-no-link", "-O1", "-w", "-i" + out + "/src:" + HERE + "/hs/shim:" + HERE + "/hs", "-outputdir", out + "/o", "-I" + out + "/tree"] + flags + ["-package", "vector", "-package", "text", HERE + "/hs/Driver.hs"])
    redefine = []
    for s in ("malloc", "calloc", "realloc", "free", "strdup", "fopen", "fopen64"):
        redefine += ["--redefine-sym", "%s=sim_%s" % (s, s)]
    B.sh(["gcc", "-g", "-O2", "-w", "-c", out + "/tree/flatcv.c", "-I" + out + "/tree", "-o", out + "/flatcv.o"])
    B.sh(["objcopy"] + redefine + [out + "/flatcv.o"])
    for m in own:
        o = out + "/o/" + m + ".o"
        if os.path.exists(o):
            B.sh(["objcopy"] + redefine[:8] + [o])
    inc = subprocess.run(["ghc", "--print-libdir"], stdout=subprocess.PIPE, text=True).stdout.strip()
    hsffi = [os.path.dirname(p) for p in glob.glob(inc + "/**/HsFFI.h", recursive=True)] or [inc + "/include"]
    B.sh(["gcc", "-g", "-O1", "-w", "-c", HERE + "/hs/hsrt.c", "-I" + out + "/tree"] + ["-I" + i for i in hsffi] + ["-o", out + "/hsrt.o"])
    for c in B.listing(out + "/src", (".c",)):      # C wrappers that c2hs writes
        B.sh(["gcc", "-O1", "-w", "-c", c, "-I" + out + "/tree", "-I" + out + "/src", "-o", c + ".o"])
        B.sh(["objcopy"] + redefine[:8] + [c + ".o"])
    objs = B.listing(out + "/o", (".o",)) + B.listing(out + "/src", (".o",))
    B.sh(["ghc", "-o", out + "/hsbin"] + objs + [out + "/flatcv.o", out + "/hsrt.o", "-package", "vector", "-package", "text", "-lm", "-with-rtsopts=-V0 -A256k -I0 --install-signal-handlers=no"])
    json.dump({"unsafe_imports": unsafe, "modules_under_test": sorted(own)}, open(out + "/info.json", "w"))
    open(out + "/ok", "w").close()
    return out


# ---------------------------------------------------------------- plans
RGBA = ["grayscale", "grayscaleStretch", "rgbaToGrayscale", "gaussianBlur", "otsuThreshold", "bwSmart", "flipX", "flipY", "transpose", "transverse", "rotate90CW", "rotate180", "rotate270CW"]
MORPH = ["binaryDilationDisk", "binaryErosionDisk", "binaryClosingDisk", "binaryOpeningDisk"]
OTHER = ["singleToMultichannel", "applyGlobalThreshold", "sobelEdgeDetection", "foerstnerCorner", "resize", "crop", "trim", "trimThreshold", "calculatePerspectiveTransform", "applyMatrix3x3", "drawCircle", "drawDisk", "addBorder", "generateHistogram", "watershedSegmentation", "getExifOrientation", "parseHexColor", "convertToBinary"]
SLOW = ["detectCorners", "extractDocument", "extractDocumentAuto", "ptr_detectCorners"]
PTR = ["ptr_" + o for o in ("grayscale", "grayscaleStretch", "rgbaToGrayscale", "singleToMultichannel", "gaussianBlur", "otsuThreshold", "bwSmart", "calculatePerspectiveTransform", "applyMatrix3x3", "flipX", "flipY", "transpose", "rotate90CW", "rotate180", "rotate270CW")]
FAST = RGBA + MORPH * 2 + OTHER + PTR
NOIMG = {"calculatePerspectiveTransform", "getExifOrientation", "parseHexColor"}
QUICK_SLOW = 0.008


def hexs(s):
    return "".join("%04x" % ord(c) for c in s)


def color(r):
    k = r.random()
    d = lambda n: "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n))
    if k < 0.55: return d(6)
    if k < 0.75: return "#" + d(6)
    if k < 0.8: return r.choice(["FFFFFF", "#000000", "ffffff", "000000"])
    if k < 0.9: return r.choice(["", "#", "FF", "#12", "fff", "zzzzzz", "12345g", "#1234567", "red", "-1-1-1", " ff00ff", "0x1234"])
    if k < 0.95: return d(r.randint(0, 12))
    return "".join(chr(r.choice([0x41, 0xe9, 0x20ac, 0x7f, 0x23, 0x30])) for _ in range(r.randint(1, 9)))


def fnum(x):
    return repr(float(x))


def params(r, op, w, h, ch):
    op = op[4:] if op.startswith("ptr_") else op
    if op == "gaussianBlur": return [r.choice([0, 0.5, 1, 2, 3.3, 7, -1, r.uniform(0.1, 6)])]
    if op in ("otsuThreshold", "bwSmart"): return [r.randint(0, 1)]
    if op == "applyGlobalThreshold": return [r.choice([0, 1, 127, 128, 254, 255, r.randint(0, 255)])]
    if op == "foerstnerCorner": return [r.choice([0.5, 1.0, 1.5, 2.5])]
    if op in MORPH: return [r.choice([0, 1, 1, 2, 3, 5, -1])]
    if op == "resize": return [r.choice([0.5, 1, 2, 0.1, 3, r.uniform(0.05, 3), -1, 0]), r.choice([0.5, 1, 2, 0.3, r.uniform(0.05, 3)])]
    if op == "crop":
        x, y = r.randint(0, max(0, w)), r.randint(0, max(0, h))
        if r.random() < 0.8: return [x, y, r.randint(0, max(0, w - x)), r.randint(0, max(0, h - y))]
        return [x, y, r.randint(0, w + 2), r.randint(0, h + 2)]
    if op == "trimThreshold": return [r.choice([0, 1, 5, 20, 50, 100, r.uniform(0, 100)])]
    if op == "calculatePerspectiveTransform":
        q = lambda: [r.choice([0, 0, 10, 100, r.uniform(-50, 200)]) for _ in range(8)]
        sq = lambda a, b: [0, 0, a, 0, a, b, 0, b]
        return (q() if r.random() < 0.6 else sq(r.uniform(1, 90), r.uniform(1, 90))) + (q() if r.random() < 0.4 else sq(r.uniform(1, 90), r.uniform(1, 90)))
    if op == "applyMatrix3x3":
        m = [1, 0, 0, 0, 1, 0, 0, 0, 1] if r.random() < 0.2 else [r.uniform(-2, 2), r.uniform(-1, 1), r.uniform(-9, 9), r.uniform(-1, 1), r.uniform(-2, 2), r.uniform(-9, 9), r.uniform(-.05, .05), r.uniform(-.05, .05), 1]
        return [r.randint(1, 24), r.randint(1, 24)] + m
    if op == "extractDocument": return [r.randint(1, 40), r.randint(1, 40)]
    if op in ("drawCircle", "drawDisk"): return [r.choice([0, 0.5, 1, 2.5, 5, 12, -1]), r.uniform(-3, w + 3), r.uniform(-3, h + 3)]
    if op == "addBorder": return [r.choice([0, 1, 1, 2, 5, 9])]
    if op == "watershedSegmentation":
        return [r.randint(0, 1)] + [x for _ in range(r.choice([0, 1, 2, 2, 3, 5])) for x in (r.choice([r.randint(0, max(0, w - 1)), r.uniform(-1, w + 1)]), r.choice([r.randint(0, max(0, h - 1)), r.uniform(-1, h + 1)]))]
    if op == "getExifOrientation":
        # orientation, read error at byte (-1: none), cut, missing, can be opened
        return [r.choice([1, 2, 3, 4, 5, 6, 7, 8, 0, 9, 300]), r.choice([-1, -1, -1, r.randint(0, 150)]), r.choice([0, 0, 0, r.randint(1, 150)]), int(r.random() < 0.1), int(r.random() > 0.1)]
    return []


def gen_step(r, slow, shape=None, nested=False):
    op = r.choice(SLOW) if not nested and r.random() < slow else r.choice(FAST)
    if op in SLOW:
        # a document of more than 100 pixels: extractDocumentAuto then chooses a size that is not square
        w, h, ch = (r.randint(30, 60), r.randint(30, 60), 4) if r.random() < 0.4 else (r.randint(60, 240), r.randint(60, 240), 4)
    else:
        w, h = shape or (r.choice([1, 1, 2, 3, 4, 5, 7, 8, 12, 16, 23]), r.choice([1, 2, 3, 4, 5, 6, 9, 11, 16, 24]))
        if shape is None and r.random() < 0.03: w = 0
        if shape is None and r.random() < 0.02: h = 0
        if op in MORPH + ["convertToBinary"] and r.random() < 0.03: w = -w
        ch = r.choice([1, 3, 4, 4])
    s = {"op": op, "w": w, "h": h, "ch": ch, "seed": r.randint(1, 10 ** 9), "style": 6 if op in SLOW else r.randint(0, 6)}
    p = params(r, op, max(w, 0), max(h, 0), ch)
    if p: s["p"] = ",".join(fnum(x) for x in p)
    if op in ("drawCircle", "drawDisk", "addBorder", "parseHexColor", "convertToBinary"): s["s1"] = hexs(color(r))
    if op == "convertToBinary": s["s2"] = hexs(color(r))
    s["src"] = int(r.random() < 0.3)
    s["slice"] = r.choice([0, 0, 0, 1, 4, 13])
    if r.random() < 0.35: s["keep"] = 1
    if r.random() < 0.5: s["late"] = 1
    if nested: s["nested"] = 1
    return s


def gen_plan(r, inside, slow):
    steps, shape = [], None
    n = r.choice([1, 1, 2, 3])
    if n > 1 and r.random() < 0.6: shape = (r.randint(1, 12), r.randint(1, 12))
    for k in range(n):
        s = gen_step(r, slow, shape)
        if k and shape and r.random() < 0.7: s["chain"] = 1
        span = 40 if s["op"] in SLOW else r.choice([2, 3, 6, 12])
        if r.random() < 0.55: s["fail"] = ",".join(str(x) for x in sorted({r.randint(1, span) for _ in range(r.choice([1, 1, 1, 2, 3]))}))
        elif r.random() < 0.12: s["from"] = r.randint(1, span)
        if inside and s["op"] not in SLOW:
            if r.random() < 0.5: s["gc"] = ",".join(str(x) for x in sorted({r.randint(1, span) for _ in range(r.choice([1, 1, 2]))}))
            if r.random() < 0.25: s["nest"] = ",".join(str(x) for x in sorted({r.randint(1, span) for _ in range(r.choice([1, 2]))}))
        steps.append(s)
    if any("nest" in s for s in steps):
        steps += [gen_step(r, 0, None, True) for _ in range(r.randint(1, 2))]
    return steps


def text(plan):
    return "|".join(" ".join("%s=%s" % kv for kv in s.items()) for s in plan)


# ---------------------------------------------------------------- execution
class Driver:
    def __init__(self, d):
        self.d, self.p, self.n = d, None, 0

    def start(self):
        self.p = subprocess.Popen([self.d + "/hsbin"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd="/", start_new_session=True)
        self.p.stdin.write("inject\n")

    def run(self, line, limit=60):
        """-> dict(tag ok|viol|harness, ...)"""
        if self.p is None:
            self.start()
        t = threading.Timer(limit, lambda: self.p.kill())
        t.start()
        out = ""
        try:
            self.p.stdin.write(line + "\n"); self.p.stdin.flush()
            out = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            pass
        alive = t.is_alive()
        t.cancel()
        f = out.split(" ", 8)
        self.n += 1
        if len(f) >= 8 and f[0] in ("ok", "viol", "harness") and out.endswith("\n"):
            return {"tag": f[0], "hash": f[1], "allocs": int(f[2]), "exc": int(f[3]), "fired": [int(x) for x in f[4:8]], "text": f[8].strip() if len(f) > 8 else ""}
        try:
            rest, err = self.p.communicate(timeout=10)
        except Exception:
            self.p.kill(); rest, err = "", ""
            self.p.wait()
        rc = self.p.returncode
        self.p = None
        if not alive:
            return {"tag": "viol", "hash": "-", "allocs": 0, "exc": 0, "fired": [0] * 4, "text": "hang: no result within %d s" % limit}
        if out.startswith("crash"):
            return {"tag": "viol", "hash": "-", "allocs": 0, "exc": 0, "fired": [0] * 4, "text": out.strip()}
        if rc in (3, 4, 5):
            return {"tag": "harness", "hash": "-", "allocs": 0, "exc": 0, "fired": [0] * 4, "text": "driver ended with %s: %s" % (rc, err[-300:])}
        return {"tag": "viol", "hash": "-", "allocs": 0, "exc": 0, "fired": [0] * 4, "text": "the process ended (%s): %s" % (rc, (out + err).strip().splitlines()[0][:200] if (out + err).strip() else "")}

    def close(self):
        if self.p:
            self.p.kill(); self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                try: f.close()
                except Exception: pass
            self.p = None


def kind(res):
    return re.sub(r"^step \d+ ", "", res["text"]).split(":")[-2 if res["text"].startswith(("step", "nested")) and res["text"].count(":") > 1 else 0].strip() if res["tag"] == "viol" else ""


def fresh(d, plan):
    x = Driver(d)
    try:
        return x.run(text(plan) if not isinstance(plan, str) else plan)
    finally:
        x.close()


def minimise(d, plan, k, budget=60):
    end, best, x = time.time() + budget, plan, Driver(d)
    def bad(p):
        r = x.run(text(p))
        return r["tag"] == "viol" and kind(r) == k
    changed = True
    while changed and time.time() < end:
        changed = False
        cands = []
        for i in range(len(best)):
            if len(best) > 1: cands.append(best[:i] + best[i + 1:])
        for i, s in enumerate(best):
            for key in ("nest", "gc", "fail", "from", "chain", "slice", "late", "keep", "src"):
                if key in s and s[key] not in (0, "0"):
                    t = dict(s); del t[key]; cands.append(best[:i] + [t] + best[i + 1:])
                    if "," in str(s[key]):
                        for drop in str(s[key]).split(","):
                            t = dict(s); t[key] = ",".join(v for v in s[key].split(",") if v != drop); cands.append(best[:i] + [t] + best[i + 1:])
            for key in ("w", "h"):
                if int(s[key]) > 1:
                    for v in (1, int(s[key]) // 2, int(s[key]) - 1):
                        t = dict(s); t[key] = v; cands.append(best[:i] + [t] + best[i + 1:])
        for c in cands:
            if time.time() > end: break
            if any(int(s.get("nested", 0)) == 0 for s in c) and bad(c):
                best, changed = c, True
                break
    x.close()
    return best


def shard(d, seed, n, plans, wall, inside, slow, stop):
    r = random.Random("%d/%d" % (seed, n))
    x, end, t0 = Driver(d), time.time() + wall, time.time()
    st = {"plans": 0, "steps": 0, "fired": [0] * 4, "exc": 0, "allocs": 0, "ops": {}, "states": set(), "gate": 0, "gate_bad": 0, "harness": 0, "harness_text": "", "viol": None, "samples": []}
    while st["plans"] < plans and time.time() < end and not stop.is_set():
        plan = gen_plan(r, inside, slow)
        line = text(plan)
        res = x.run(line)
        if st["plans"] % 40 == 0:
            y = fresh(d, line)
            st["gate"] += 1
            st["gate_bad"] += (y["tag"], y["hash"], y["text"]) != (res["tag"], res["hash"], res["text"])
        st["plans"] += 1
        st["steps"] += len(plan); st["exc"] += res["exc"]; st["allocs"] += res["allocs"]
        st["fired"] = [a + b for a, b in zip(st["fired"], res["fired"])]
        for s in plan: st["ops"][s["op"]] = st["ops"].get(s["op"], 0) + 1
        st["states"].add(hashlib.md5(("%s %s %s %s" % ([(s["op"], s.get("fail"), s.get("gc"), s.get("nest"), s.get("from"), s.get("chain")) for s in plan], res["allocs"], res["exc"], res["fired"])).encode()).hexdigest()[:12])
        if len(st["samples"]) < 2: st["samples"].append({"plan": line[:600], "result": res["tag"], "hash": res["hash"], "fired": res["fired"]})
        if res["tag"] == "harness":
            st["harness"] += 1; st["harness_text"] = res["text"]
        if res["tag"] == "viol":
            a, b = fresh(d, line), fresh(d, line)
            if a["tag"] == "viol" and kind(a) == kind(b):
                st["viol"] = (plan, a, time.time() - t0)
                stop.set()
                break
            st["harness"] += 1; st["harness_text"] = "not repeated in a new process: " + res["text"]
    x.close()
    return st


def main(a):
    opt = lambda n, dflt=None: a[a.index(n) + 1] if n in a else dflt
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    t0 = time.time()
    try:
        d = build()
    except RuntimeError as e:
        print("the bindings could not be built:\n%s" % e, file=sys.stderr)
        return 2
    t1 = time.time()
    if "--replay" in a:
        line = "|".join(l.strip() for l in open(opt("--replay")) if l.strip() and not l.startswith("#"))
        r = fresh(d, line)
        print("%s hash=%s allocations=%d exceptions=%d fired=%s %s" % (r["tag"], r["hash"], r["allocs"], r["exc"], r["fired"], r["text"]))
        if r["tag"] == "viol":
            print("VIOLATION property=C12 replay=%s" % opt("--replay"))
            return 1
        return 0 if r["tag"] == "ok" else 2
    info = json.load(open(d + "/info.json"))
    wall = float(opt("--wall", QUICK_WALL if tier == "quick" else THOROUGH_WALL))
    plans = QUICK_PLANS if tier == "quick" and "--wall" not in a else 10 ** 9
    stop = threading.Event()
    with ThreadPoolExecutor(SHARDS) as ex:
        R = list(ex.map(lambda n: shard(d, seed, n, plans, wall, not info["unsafe_imports"], QUICK_SLOW, stop), range(SHARDS)))
    t2 = time.time()
    viol = None
    hit = next(((n, r["viol"]) for n, r in enumerate(R) if r["viol"]), None)
    if hit:
        n, (plan, res, after) = hit
        best = minimise(d, plan, kind(res))
        r1, r2 = fresh(d, best), fresh(d, best)
        if r1["tag"] != "viol" or r1 != r2:
            best = plan
            r1, r2 = fresh(d, best), fresh(d, best)
        os.makedirs(HERE + "/evidence/replay", exist_ok=True)
        dst = "%s/evidence/replay/C12-seed%d-shard%d.plan" % (HERE, seed, n)
        with open(dst, "w") as f:
            f.write("# C12 seed %d shard %d: %s\n" % (seed, n, r1["text"]) + "\n".join(text([s]) for s in best) + "\n")
        viol = {"class": kind(r1), "detail": r1["text"], "replay": dst, "replay_hash": r1["hash"], "replayed_twice_identically": r1 == r2, "found_after_s": round(after, 2), "shard": n}
    S = lambda k: sum(r[k] for r in R)
    ops = {}
    for r in R:
        for k, v in r["ops"].items(): ops[k] = ops.get(k, 0) + v
    fired = [sum(r["fired"][k] for r in R) for k in range(4)]
    simwall = max(t2 - t1, 0.001)
    states = len(set().union(*[r["states"] for r in R]))
    ev = {
        "property": "C12", "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "evaluations": S("plans"), "distinct_nontrivial": states, "rule": "distinct combinations of operations, positions of failing allocations, collections and nested calls, allocation count, exceptions and faults that took effect",
            "samples": [s for r in R[:2] for s in r["samples"]],
            "plans": S("plans"), "calls": S("steps"), "allocations": S("allocs"), "calls_that_threw": S("exc"),
            "runs_per_hour": int(S("plans") / simwall * 3600), "seeds": SHARDS, "seed_streams_per_hour": int(SHARDS / simwall * 3600),
            "simulated_time_note": "time is counted in allocations, the points at which the schedule acts",
            "faults_injected": {"failing allocation": fired[0], "garbage collection inside of a C call": fired[1], "nested call of the bindings inside of a C call": fired[2], "file open or read error": fired[3]},
            "workload": ops, "distinct_states": states, "determinism_gate": {"plans_executed_twice": S("gate"), "different_traces": S("gate_bad")},
            "no_answer_runs": S("harness"), "no_answer_example": next((r["harness_text"] for r in R if r["harness_text"]), ""),
            "real_components": ["FlatCV.hs and the c2hs output of Raw.chs, compiled from the working tree", "flatcv.c, the amalgamation of the working tree", "the GHC runtime and collector"],
            "stubbed_components": ["malloc, calloc, realloc, free, strdup of the C library and of the bindings", "fopen and the file that getExifOrientation reads", "time of garbage collections"],
            "injection_inside_calls": not info["unsafe_imports"], "violation": viol, "build_s": round(t1 - t0, 2), "simulation_s": round(simwall, 2),
        },
        "assumptions": ["one Haskell capability; other threads run at allocation points of the C library", "images of up to some thousand pixels stand for larger ones", "the reference calls the same C library directly from C"],
        "violations": 1 if viol else 0,
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/C12.json", "w"), indent=1)
    print("C12: %d plans, %d calls, %d threw, %d distinct, faults %s, %.0f s (build %.0f s), gate %d/%d differ, no answer %d %s" % (S("plans"), S("steps"), S("exc"), states, fired, simwall, t1 - t0, S("gate_bad"), S("gate"), S("harness"), ev["coverage"]["no_answer_example"][:200]))
    if viol:
        print(viol["detail"])
        print("VIOLATION property=C12 replay=%s" % viol["replay"])
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
