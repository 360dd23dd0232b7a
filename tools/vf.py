"""Machinery shared by the checks: build the drivers from /repo's working
tree, run them on generated cases, and let TLC judge what they observed."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAVA = ["java", "-XX:+UseSerialGC", "-Xss64m", "-XX:CICompilerCount=2",
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
        ]
NCPU = min(8, os.cpu_count() or 8)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,signed-integer-overflow,shift", "-fno-sanitize-recover=all"]
COMMON = ["-DC4_NO_DEBUG_BREAK", "-w", "-pthread"]
CONFIGS = {
    # checked build: assertions on, sanitizers
    "asan":  ["g++", "-std=c++17", "-O0", "-g1"] + SAN,
    # release build: no assertions, optimised, the pre-C++17 code paths
    "rel":   ["clang++", "-std=c++14", "-O1", "-DNDEBUG"],
    # further configurations
    "rel17": ["g++", "-std=c++17", "-O2", "-DNDEBUG"],
    "rel20": ["clang++", "-std=c++20", "-O2", "-DNDEBUG"],
    # char is unsigned on some platforms (arm)
    "uchar": ["g++", "-std=c++14", "-O0", "-g1", "-funsigned-char"] + SAN,
    # the oldest standard the library supports
    "cxx11": ["clang++", "-std=c++11", "-O0", "-g1"] + SAN,
    # errors can throw
    "exc":   ["g++", "-std=c++17", "-O0", "-g1", "-DC4_EXCEPTIONS_ENABLED", "-DC4_ERROR_THROWS_EXCEPTION"] + SAN,
    # shifts by too much or by negative amounts
    "shift": ["clang++", "-std=c++17", "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all"],
    "san14": ["clang++", "-std=c++14", "-O1", "-g1"] + SAN,
}


class CheckError(Exception):
    """the check itself could not be carried out"""


class DoesNotCompile(CheckError):
    """the library cannot be used as it could be"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return "x" + bytes(b).hex()


# ------------------------------------------------------------------ building
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs[:] = [d for d in dirs if not d.startswith(".")]
        for f in files:
            out.append(os.path.join(root, f))
    return out


class Builder:
    """builds drivers; objects are cached by the content of everything they are made of"""
    def __init__(self, work):
        self.work = work
        self.cache = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))
        os.makedirs(self.cache, exist_ok=True)
        self.srchash = tree_hash(repo_sources())
        self.harnhash = tree_hash(glob.glob(os.path.join(HARN, "*.hpp")))
        self.locks = {}
        self.mutex = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def _compile(self, cmd, src, extra=""):
        key = hashlib.sha256(("|".join(cmd) + src + self.srchash + extra).encode()).hexdigest()[:32]
        obj = os.path.join(self.cache, key + ".o")
        with self.mutex:
            lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if not os.path.exists(obj):
                tmp = os.path.join(self.work, key + ".o")
                r = subprocess.run(cmd + ["-I" + os.path.join(REPO, "src"), "-I" + HARN, "-c", src, "-o", tmp],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    t = "compilation failed: %s\n%s" % (" ".join(cmd + [src]), r.stdout[-3000:])
                    # an error in the code, and not e.g. a full disk or a killed compiler
                    raise (DoesNotCompile if " error: " in r.stdout and "fatal error: " not in r.stdout else CheckError)(t)
                try:
                    os.replace(tmp, obj)
                except OSError:
                    shutil.copy(tmp, obj + ".t%d" % os.getpid()); os.replace(obj + ".t%d" % os.getpid(), obj)
        return obj

    def driver(self, name, config, defines=()):
        base = CONFIGS[config] + COMMON
        src = os.path.join(HARN, name + ".cpp")
        with open(src) as f:
            extra = self.harnhash + hashlib.sha256(f.read().encode()).hexdigest()
        futs = [self.pool.submit(self._compile, base + ["-D" + d for d in defines], src, extra)]
        for c in sorted(glob.glob(os.path.join(REPO, "src/c4/*.cpp"))):
            futs.append(self.pool.submit(self._compile, base, c))
        objs = [f.result() for f in futs]
        exe = os.path.join(self.work, "%s-%s-%s" % (name, config, "-".join(defines)))
        r = subprocess.run(base + objs + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("link failed: %s" % r.stdout[-3000:])
        return exe


# ------------------------------------------------------------------ running
class RunResult:
    def __init__(self):
        self.events = []      # (case index, json text)
        self.crash = None     # (case index, what)


def run_driver(exe, cases, work, tag, hang_s=60, env=None):
    """run a list of case lines; a crash or hang is an outcome, not an error"""
    cfile = os.path.join(work, tag + ".cases")
    ofile = os.path.join(work, tag + ".ev")
    pfile = os.path.join(work, tag + ".prog")
    with open(cfile, "w") as f:
        f.write("\n".join(cases) + "\n")
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    if env:
        e.update(env)
    errf = open(os.path.join(work, tag + ".err"), "w+")
    p = subprocess.Popen([exe, cfile, ofile, pfile], stdout=errf, stderr=errf, env=e, cwd=work)

    def progress():
        try:
            with open(pfile, "rb") as f:
                return int.from_bytes(f.read(8), sys.byteorder, signed=True)
        except Exception:
            return 0
    last, since, hang = None, time.time(), False
    while True:
        try:
            p.wait(timeout=0.05 if time.time() - since < 2 else 0.5)
            break
        except subprocess.TimeoutExpired:
            q = progress()
            if q != last:
                last, since = q, time.time()
            elif time.time() - since > hang_s:
                hang = True
                p.kill(); p.wait()
                break
    res = RunResult()
    prog = progress()
    errf.seek(0)
    err = errf.read()
    errf.close()
    if p.returncode in (42, 43, 44):
        raise CheckError("driver error: %s" % err[-2000:])
    if os.path.exists(ofile):
        with open(ofile, errors="replace") as f:
            for line in f:
                k = line.find("\t")
                if k > 0 and line.endswith("\n"):
                    res.events.append((int(line[:k]), line[k + 1:-1]))
    if hang or p.returncode != 0 or prog != -1:
        what = "hang" if hang else "exit status %s" % p.returncode
        m = re.search(r"(SUMMARY: .*|.*runtime error: .*|unexpected error: .*|terminate called.*)", err)
        res.crash = (prog, what + (": " + m.group(1) if m else "") + "\n" + err[-3000:])
    return res


# ------------------------------------------------------------------ TLC
def tlc(module, work, cfg=None, env=None, workers=1, heap="2g", timeout=800, extra=(), dumpargs=()):
    md = tempfile.mkdtemp(prefix="md", dir=work)
    cmd = JAVA[:1] + ["-Xmx" + heap, "-Djava.io.tmpdir=" + md] + JAVA[1:] + ["tlc2.TLC", "-config", cfg or module + ".cfg", "-metadir", md,
          "-workers", str(workers), "-noGenerateSpecTE", "-nowarning"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    if env:
        e.update(env)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timeout on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r.wall = time.time() - t0
    return r


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return (0, 0)
    g, d = m[-1]
    return (int(g.replace(",", "")), int(d.replace(",", "")))


def validate(spec, events, work, tag, stateful_cut=None, jobs=NCPU, timeout=800):
    """let TLC check a list of event texts; returns list of (index, expected)"""
    if not events:
        return [], 0, 0
    n = len(events)
    nsh = max(1, min(jobs, (n + 1999) // 2000))
    bounds = [n * k // nsh for k in range(nsh + 1)]
    if stateful_cut:
        # sessions start at events for which stateful_cut is true
        adj = [0]
        for b in bounds[1:-1]:
            while b < n and not stateful_cut(events[b]):
                b += 1
            adj.append(max(b, adj[-1]))
        bounds = adj + [n]
    shards = [(bounds[k], bounds[k + 1]) for k in range(len(bounds) - 1) if bounds[k + 1] > bounds[k]]

    def one(k):
        lo, hi = shards[k]
        path = os.path.join(work, "%s-%d.ndjson" % (tag, k))
        with open(path, "w") as f:
            f.write("\n".join(events[lo:hi]) + "\n")
        r = tlc(spec, work, env={"VF_TRACE": path}, timeout=timeout)
        mis = []
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*', r.stdout):
            rest = r.stdout[m.end():]
            stop = re.search(r'\n<<\s*"(?:MISMATCH|VALIDATED)"|\nModel checking|\nError', rest)
            exp = rest[:stop.start() if stop else 2000].strip()
            mis.append((lo + int(m.group(1)) - 1, re.sub(r"\s+", " ", exp)[:1500].rstrip(">").strip()))
        v = re.search(r'<<\s*"VALIDATED",\s*(\d+)\s*>>', r.stdout)
        if (r.returncode != 0 or not v) and re.search(r"Error: (TLC threw|The (first|second|third) argument|Attempted|Evaluating|In evaluation|The following)", r.stdout) \
                and not re.search(r"OutOfMemory|StackOverflow|heap space", r.stdout):
            # the specification has no meaning for this outcome: it does not allow it
            at = re.findall(r"^(?:/\\ )?i = (\d+)\s*$", r.stdout, re.M)
            if at and 1 <= int(at[-1]) <= hi - lo:
                k = lo + int(at[-1]) - 1
                os.remove(path)
                return mis + [(k, "no outcome of this shape: " + re.sub(r"\s+", " ", r.stdout[r.stdout.index("Error:"):])[:400])], int(at[-1])
        if r.returncode != 0 or not v or int(v.group(1)) != hi - lo:
            i = int(v.group(1)) if v else -1
            raise CheckError("TLC could not evaluate %s shard %d (validated %s of %d):\n%s" % (
                spec, k, i, hi - lo, r.stdout[-3000:]))
        os.remove(path)
        return mis, hi - lo
    mism, tot = [], 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for mis, cnt in ex.map(one, range(len(shards))):
            mism += mis
            tot += cnt
    return mism, tot, len(shards)
