#!/usr/bin/env python3
"""Builds the system under test (from /repo's working tree) and the simulator.

build(verif, repo) -> directory with simbin, libsut_*.so, dict.txt, seams.json.
The directory is keyed by the hash of every input, so an unchanged tree is built once."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REDIRECT = """malloc calloc realloc free reallocarray strdup strndup posix_memalign aligned_alloc asprintf vasprintf
getline getdelim open_memstream
fopen fopen64 fclose freopen fdopen fileno open open64 creat read write close lseek fsync ftruncate truncate
unlink remove rename chmod mkdir rmdir mkstemp tmpfile access stat fstat realpath
printf vprintf puts putchar getchar perror stdin stdout stderr
exit _exit abort atexit raise
clock time clock_gettime gettimeofday timespec_get usleep sleep nanosleep
rand srand random drand48 getrandom getpid getenv isatty signal system
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once""".split()
SPECIAL = {"__assert_fail": "sim_assert_fail", "main": "sut_main", "__strdup": "sim___strdup", "fdatasync": "sim_fdatasync",
           "_Exit": "sim__Exit", "lstat": "sim_lstat", "stat64": "sim_stat64", "fstat64": "sim_fstat64", "lseek64": "sim_lseek64",
           "quick_exit": "sim_quick_exit", "mkostemp": "sim_mkostemp", "fmemopen": "sim_fmemopen", "cfree": "sim_cfree", "memalign": "sim_memalign"}
def llvm(tool):
    for p in ("/usr/lib/llvm-18/bin/" + tool, shutil.which(tool), shutil.which(tool + "-18")):
        if p and os.path.exists(p):
            return p
    return tool


SUT_FLAGS = ("-g -gline-tables-only -O1 -fPIC -w -fno-omit-frame-pointer -fsanitize=address "
             "-fsanitize=array-bounds -fsanitize-trap=array-bounds -fsanitize-address-use-after-return=never -fsanitize-coverage=trace-pc-guard "
             "-mllvm -asan-globals=1 -fno-builtin-printf "
             "-fno-builtin-malloc -fno-builtin-calloc -fno-builtin-realloc -fno-builtin-free -fno-builtin-strdup").split()
# pure or stream-relative functions that need no seam: they act on FILE objects of the simulated disk or on memory
PURE_OK = re.compile(r"^(__asan_|__sanitizer_|__ubsan|mem|str|__isoc|f(read|write|seek|tell|eof|error|flush|getc|putc|puts|gets|printf|close|seeko|tello)|setvbuf|setbuf|rewind|clearerr|ungetc|getc|vfprintf|snprintf|sprintf|vsnprintf|sscanf|__ctype|isspace|is[a-z]+$|to(upper|lower)|ato[fil]|strto|qsort|bsearch|abs|labs|pow|sqrt|exp|log|sin|cos|tan|atan|floor|ceil|round|l?l?rint|l?l?round|fmod|f(abs|min|max)|hypot|asin|acos|bcmp|nextafter|copysign|exp2|log2|cbrt|trunc|nearbyint|ldexp|frexp|modf|nan|fma|__errno|errno|_GLOBAL_|__stack|__cxa|_ITM|__gmon|__tls|sim_|__fpclassify|__isnan|__isinf|__isfinite|__signbit|__memcpy_chk|__mem|__str|__s?n?printf_chk|__fprintf_chk)")


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd)[:2000], p.stdout[:4000]))
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def listing(d, exts):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(exts)]


def sut_inputs(repo):
    return listing(repo + "/src", (".c", ".h")) + listing(repo + "/include", (".h",)) + [repo + "/makefile", repo + "/license.txt"]


def extract_dict(irs):
    ints, floats, strs = {}, {}, {}
    for t in irs:
        for m in re.finditer(r"\bicmp \w+ i\d+ [^,\n]+, (-?\d+)", t):
            v = int(m.group(1)); ints[v] = ints.get(v, 0) + 1
        for m in re.finditer(r"^\s+i\d+ (-?\d+), label", t, re.M):
            v = int(m.group(1)); ints[v] = ints.get(v, 0) + 1
        for m in re.finditer(r"\b(?:urem|srem|and|udiv|sdiv) i\d+ [^,\n]+, (-?\d+)", t):
            v = int(m.group(1)); ints[v] = ints.get(v, 0) + 1
        for m in re.finditer(r"\bfcmp \w+ double [^,\n]+, ([-+0-9.e]+|0x[0-9A-F]+)", t):
            x = m.group(1)
            try:
                import struct
                v = struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0] if x.startswith("0x") else float(x)
            except Exception:
                continue
            if v == v and abs(v) < 1e9:
                floats[v] = floats.get(v, 0) + 1
    return ints, floats


def build(verif, repo, need_hs=False, log=lambda *a: None):
    sim = verif + "/sim"
    simfiles = listing(sim, (".cpp", ".h", ".py", ".hs", ".c"))
    key = tree_hash(sut_inputs(repo) + simfiles)
    root = verif + "/build"
    os.makedirs(root, exist_ok=True)
    out = root + "/" + key
    lock = open(root + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(out + "/ok"):
            old = sorted((d for d in os.listdir(root) if os.path.isdir(root + "/" + d) and not d.startswith("simobj")), key=lambda d: os.path.getmtime(root + "/" + d))
            for d in old[:-2]:   # keep at most two older builds, and those used lately
                if time.time() - os.path.getmtime(root + "/" + d) > 1500:
                    shutil.rmtree(root + "/" + d, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            _build(sim, repo, root, out, log)
            open(out + "/ok", "w").close()
        os.utime(out)
        return out
    finally:
        lock.close()


def _build(sim, repo, root, out, log):
    src = out + "/tree"
    os.makedirs(src)
    shutil.copytree(repo + "/src", src + "/src")
    shutil.copytree(repo + "/include", src + "/include")
    for f in ("makefile", "license.txt"):
        shutil.copy(repo + "/" + f, src)
    sh(["make", "-B", "-s", "CC=gcc", "flatcv.h", "flatcv.c"], cwd=src)
    with open(out + "/redefine", "w") as f:
        for s in REDIRECT:
            f.write("%s sim_%s\n" % (s, s))
        for a, b in SPECIAL.items():
            if a != b:
                f.write("%s %s\n" % (a, b))
    csrc = sorted(f for f in os.listdir(src + "/src") if f.endswith(".c"))
    sh(["clang++", "-O1", "-fPIC", "-emit-llvm", "-c", sim + "/step.cpp", "-o", out + "/step.bc"])

    def unit(name, files, flags):
        """C files -> one object with the step clock inlined and the outside world redirected to the simulator"""
        bcs = []
        for k, f in enumerate(files):
            bcs.append("%s/%s.%d.bc" % (out, name, k))
            sh(["clang"] + SUT_FLAGS + flags + ["-emit-llvm", "-c", f, "-o", bcs[-1]], cwd=src)
        bc, o = "%s/%s.bc" % (out, name), "%s/%s.o" % (out, name)
        sh([llvm("llvm-link"), "-o", bc] + bcs + [out + "/step.bc"])
        sh([llvm("opt"), "-passes=always-inline", bc, "-o", bc])
        sh(["clang", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-fPIC", "-fno-omit-frame-pointer", "-c", bc, "-o", o])
        sh(["objcopy", "--redefine-syms=" + out + "/redefine", o])
        for x in bcs + [bc]:
            os.remove(x)
        return o

    def ir(f):
        p = subprocess.run(["clang", "-O1", "-w", "-fno-unroll-loops", "-fno-vectorize", "-fno-slp-vectorize", "-Iinclude", "-S", "-emit-llvm", "src/" + f, "-o", "-"], cwd=src, stdout=subprocess.PIPE, text=True)
        return p.stdout

    with ThreadPoolExecutor(8) as ex:
        simo = simbuild(sim, root, ex)
        parts = {"split": [], "zero": [], "amalg": []}
        rest = [f for f in csrc if f != "cli.c"]
        for v, init in (("split", "pattern"), ("zero", "zero")):
            fl = ["-Iinclude", "-ftrivial-auto-var-init=" + init]
            if "cli.c" in csrc:
                parts[v].append(ex.submit(unit, v + "_cli", ["src/cli.c"], fl))
        for v, init in (("split", "pattern"), ("zero", "zero")):
            fl = ["-Iinclude", "-ftrivial-auto-var-init=" + init]
            for f in rest:
                parts[v].append(ex.submit(unit, "%s_%s" % (v, f[:-2]), ["src/" + f], fl))
        parts["amalg"].append(ex.submit(unit, "amalg_all", ["flatcv.c"], ["-I.", "-ftrivial-auto-var-init=pattern"]))
        irj = [ex.submit(ir, f) for f in rest]
        parts = {v: [j.result() for j in js] for v, js in parts.items()}
        irs = [j.result() for j in irj]
        simo = [j.result() for j in simo]
        simbuild_done(root)
    ints, floats = extract_dict(irs)
    with open(out + "/dict.txt", "w") as f:
        for v in sorted(ints):
            f.write("i %d %d\n" % (v, ints[v]))
        for v in sorted(floats):
            f.write("f %r %d\n" % (v, floats[v]))
    unmodelled = set()
    for v in sorted(parts):
        so = "%s/libsut_%s.so" % (out, v)
        sh(["clang", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic", "-o", so] + parts[v] + ["-lm"])
        for x in parts[v]:
            os.remove(x)
        for l in sh(["nm", "-D", "--undefined-only", so]).splitlines():
            s = l.split()[-1].split("@")[0]
            if not PURE_OK.match(s):
                unmodelled.add(s)
    with open(out + "/seams.json", "w") as f:
        json.dump({"redirected": len(REDIRECT) + len(SPECIAL), "unmodelled": sorted(unmodelled)}, f)
    sh(["clang++", "-fsanitize=address", "-rdynamic", "-o", out + "/simbin"] + simo + ["-ldl", "-lpthread", "-lm", "-l:libz.a"])


def simbuild(sim, root, ex):
    """objects of the simulator itself, independent of /repo"""
    files = listing(sim, (".cpp", ".h"))
    key = tree_hash(files)
    d = root + "/simobj-" + key
    srcs = sorted((f for f in files if f.endswith(".cpp") and not f.endswith("/step.cpp")), key=lambda f: -os.path.getsize(f))
    objs = [d + "/" + os.path.basename(f)[:-4] + ".o" for f in srcs]
    for x in os.listdir(root):
        if x.startswith("simobj-") and x != os.path.basename(d) and time.time() - os.path.getmtime(root + "/" + x) > 1500:
            shutil.rmtree(root + "/" + x, ignore_errors=True)
    os.makedirs(d, exist_ok=True)

    def one(f, o):
        if not os.path.exists(d + "/ok"):
            sh(["clang++", "-std=c++17", "-O1", "-w", "-fno-omit-frame-pointer", "-c", f, "-o", o])
        return o
    return [ex.submit(one, f, o) for f, o in zip(srcs, objs)]


def simbuild_done(root):
    for x in os.listdir(root):
        if x.startswith("simobj-"):
            open(root + "/" + x + "/ok", "w").close()


if __name__ == "__main__":
    import time
    t = time.time()
    print(build("/verif", os.environ.get("VERIF_REPO", "/repo")), "%.1fs" % (time.time() - t))
