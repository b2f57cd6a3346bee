"""Builds the encoding from /repo's current sources, runs symbolic jobs on all cores, replays counterexamples natively."""
import glob, hashlib, json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
CLANG = "clang-18"
BASEFLAGS = ["-m64", "-ffast-math", "-mxsave", "-D_CRT_SECURE_NO_WARNINGS", "-DSSE2", "-w"]
IRFLAGS = BASEFLAGS + ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic", "-fno-pie", "-emit-llvm"]
RAW = ["-Xclang", "-disable-llvm-passes"]
SKIP = {"main.c", "rle_fuzz.c"}


class BuildError(Exception):
    pass


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def run_all(cmds):
    procs = []
    sem = threading.Semaphore(os.cpu_count() or 4)
    errs = []

    def one(cs):
        with sem:
            for c in cs if isinstance(cs[0], list) else [cs]:
                r = subprocess.run(c, capture_output=True, text=True)
                if r.returncode:
                    errs.append((c, r.stderr[-4000:]))
                    return
    ts = [threading.Thread(target=one, args=(c,)) for c in cmds]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise BuildError("%s\n%s" % (" ".join(errs[0][0]), errs[0][1]))


def engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("engine.cpp", "prep.cpp", "expr.cpp", "expr.hpp", "solver.hpp", "build.sh")]
    out = os.path.join(BUILD, "engine-" + sha(src))
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(["bash", os.path.join(VERIF, "engine", "build.sh"), out], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("engine: " + r.stderr[-3000:])
    return out


# Each module is compiled and linked on its own, so that one harness that no longer fits the sources cannot silence the others.
# core: the library; bitpack: the header's kernels; cli: the command line program and the fuzzer with stand-in codecs and file access.
CODEC_FILES = re.compile(r"(rle(8|16|24|32|48|64|128|X)_|rle_|(bit_)?mmtf|rle8)")
HARNESS = {"core": ["codec.c", "misc.c", "cpu.c"], "bitpack": ["bitpack.c"], "conc": ["conc.c"], "cli": ["cli.c", "clistub.c"]}
TRACE = ["-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores"]  # callbacks at which the native replay switches to the other call
WRAP = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]
PRE = os.path.join(VERIF, "harness", "cli_pre.h")


def module_of(entry):
    return "bitpack" if entry.startswith("h_bitpack") else "conc" if entry.startswith("h_conc") else "cli" if entry.startswith("h_cli") else "core"


def sources(mod, native):
    """(file, extra flags) of a module"""
    repo = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    base = os.path.basename
    if mod in ("core", "conc"):
        rs = [(f, TRACE if native and mod == "conc" else []) for f in repo if base(f) not in SKIP]
    elif mod == "cli":
        rs = [(f, ["-include", PRE]) for f in repo if base(f) in SKIP or not CODEC_FILES.match(base(f))]
    else:
        rs = []
    rs += [(os.path.join(VERIF, "harness", f), []) for f in HARNESS[mod]]
    if not native:
        rs.append((os.path.join(VERIF, "harness", "libc.c"), ["-fno-builtin"]))
    if native:
        rs.append((os.path.join(VERIF, "harness", "vp_native.c"), ["-DVP_TRACE"] if mod == "conc" else []))
    return rs


def _hash(mod):
    return mod + "-" + sha(glob.glob(os.path.join(REPO, "src", "*.[ch]")) + glob.glob(os.path.join(VERIF, "harness", "*.[ch]")) + [os.path.join(VERIF, "engine", "prep.cpp")], " ".join(IRFLAGS))


def _prune(prefix, keep):
    for d in glob.glob(os.path.join(BUILD, prefix + "*")):
        if d != keep and time.time() - os.path.getmtime(d) > 7200:
            shutil.rmtree(d, ignore_errors=True)


def bitcode(mod="core"):
    """Linked IR of the library (current working tree) and the module's harnesses."""
    d = os.path.join(BUILD, "ir-" + _hash(mod))
    out = os.path.join(d, "all.bc")
    if os.path.exists(out):
        return out
    _prune("ir-", d)
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    cmds, objs, prep = [], [], engine() + ".prep"
    for f, x in sources(mod, False):
        o = os.path.join(tmp, os.path.basename(os.path.dirname(f)) + "_" + os.path.basename(f)[:-2] + ".bc")
        objs.append(o)
        cmds.append([[CLANG] + IRFLAGS + RAW + x + ["-I", os.path.join(REPO, "src"), "-c", f, "-o", o + ".0"], [prep, o + ".0", o + ".1"], [CLANG] + IRFLAGS + ["-c", "-x", "ir", o + ".1", "-o", o]])
    run_all(cmds)
    run_all([["llvm-link-18"] + objs + ["-o", os.path.join(tmp, "all.bc")]])
    shutil.rmtree(d, ignore_errors=True)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def native(kind, mod="core"):
    """The same harnesses linked against a native build of the sources, for replay. kind: "nat"; "asan"; "junk" (uninitialised variables get arbitrary values)"""
    d = os.path.join(BUILD, kind + "-" + _hash(mod))
    out = os.path.join(d, "replay")
    if os.path.exists(out):
        return out
    _prune(kind + "-", d)
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    fl = BASEFLAGS + (["-O1", "-g", "-fsanitize=address"] if kind == "asan" else [x for x in IRFLAGS[len(BASEFLAGS):-1] if "no-pi" not in x] if kind == "junk" else ["-O2"])
    cmds, objs = [], []
    for f, y in sources(mod, True):
        o = os.path.join(tmp, os.path.basename(os.path.dirname(f)) + "_" + os.path.basename(f)[:-2] + ".o")
        objs.append(o)
        x = ["-DVP_NATIVE"] + ([] if f.endswith("vp_native.c") else ["-include", os.path.join(VERIF, "harness", "vp_cpu_native.h")]) + y
        c = [CLANG] + fl + x + ["-I", os.path.join(REPO, "src"), "-c", f, "-o", o]
        if kind == "junk" and not f.endswith("vp_native.c"):
            c = [c[:-1] + [o + ".0", "-emit-llvm"] + RAW, [engine() + ".prep", o + ".0", o + ".1", "fill"], [CLANG] + fl + ["-c", "-x", "ir", o + ".1", "-o", o]]
        cmds.append(c)
    run_all(cmds)
    run_all([[CLANG] + (["-fsanitize=address"] if kind == "asan" else []) + (WRAP if mod == "conc" else []) + objs + ["-rdynamic", "-ldl", "-lm", "-o", os.path.join(tmp, "replay")]])
    shutil.rmtree(d, ignore_errors=True)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def values_text(params, model):
    return "P " + " ".join(str(p) for p in params) + "\n" + "".join("%s %d\n" % kv for kv in model.items())


def replay(exe, entry, vals_path, timeout=90, junk=0):
    env = dict(os.environ, VP_JUNK=str(junk), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=10:allow_user_poisoning=1:max_malloc_fill_size=0")
    try:
        r = subprocess.run([exe, entry, vals_path], capture_output=True, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "viol", "hang", []
    obs = [l[4:] for l in r.stdout.splitlines() if l.startswith("OBS ")]
    for l in r.stdout.splitlines():
        if l.startswith("VIOL "):
            return "viol", l[5:], obs
        if l.startswith("ASSUME"):
            return "assume", "", obs
        if l.startswith("UNSUPPORTED"):
            return "unsupported", "", obs
    m = re.search(r"ERROR: AddressSanitizer: (\S+).*?\n(\w+) of size (\d+)", r.stderr, re.S)
    if m:
        fr = re.findall(r"#\d+ \S+ in (\S+)", r.stderr)
        return "viol", "asan %s %s of size %s in %s" % (m.group(1), m.group(2), m.group(3), fr[0] if fr else "?"), obs
    if "DONE" in r.stdout:
        return "done", "", obs
    return "viol", "exit status %d without completing" % r.returncode, obs


class Pool:
    def __init__(self, bc, n=None):
        self.bc, self.n, self.exe = bc, n or os.cpu_count() or 4, engine()

    def run(self, jobs, deadline, on_result, stop_event=None):
        """jobs: list of dict(id, entry, params, paths, sec, samples, viol). Results in completion order."""
        q = queue.Queue()
        for j in jobs:
            q.put(j)
        lock = threading.Lock()
        skipped = []

        def spawn():
            p = subprocess.Popen([self.exe, self.bc], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
            p.stdout.readline()
            return p

        def work():
            p = None
            while True:
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    break
                left = deadline - time.time()
                if left < 1 or (stop_event and stop_event.is_set()):
                    with lock:
                        skipped.append(j)
                    continue
                if p is None or p.poll() is not None:
                    p = spawn()
                sec = min(j.get("sec", 30), left)
                killer = threading.Timer(sec + 45, p.kill)
                killer.start()
                try:
                    p.stdin.write("%s %s %d %.1f %d %d %d %s\n" % (j["id"], j["entry"], j.get("paths", 1000000), sec, j.get("samples", 2), j.get("viol", 3), j.get("opts", 0), " ".join(str(x) for x in j["params"])))
                    p.stdin.flush()
                    line = p.stdout.readline()
                except (BrokenPipeError, OSError):
                    line = ""
                killer.cancel()
                try:
                    r = json.loads(line)
                except ValueError:
                    r = {"id": j["id"], "status": "error", "info": "engine died", "paths": 0}
                    p.kill()
                    p = None
                r["job"] = j
                with lock:
                    on_result(r)
                if p and r.get("mem", 0) > 1500000000:
                    p.stdin.close()
                    p.wait()
                    p = None
            if p:
                try:
                    p.stdin.close()
                except OSError:
                    pass
                p.wait()
        ts = [threading.Thread(target=work) for _ in range(self.n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return skipped
