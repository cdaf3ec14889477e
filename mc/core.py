"""Shared machinery: building the tree under test, running things, reporting."""
import atexit, fcntl, fnmatch, hashlib, json, multiprocessing as mp, os, re, resource, shutil, signal
import subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
RT = os.path.join(VERIF, "mc", "rt")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("MC_JOBS", "0") or 0) or os.cpu_count() or 4
THOROUGH = TIER == "thorough"

ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/tmp", "LC_ALL": "C", "TMPDIR": "/tmp"}


class CheckError(Exception):
    pass


# ----------------------------------------------------------------------------- processes
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
PRLIMIT = shutil.which("prlimit")


def _limits(cpu, mem):
    """A command prefix; a preexec_fn would make every start a slow fork."""
    if not (cpu or mem) or not PRLIMIT: return []
    return [PRLIMIT, "--fsize=1073741824", *([f"--cpu={cpu}:{cpu + 1}"] if cpu else []), *([f"--as={mem}"] if mem else []), "--"]


class Res:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return f"rc={self.rc}{' TIMEOUT' if self.timeout else ''} out={self.out[-400:]!r} err={self.err[-400:]!r}"


def run(cmd, cwd=None, timeout=60, cpu=0, mem=0, input=None, env=None, text=True):
    e = dict(ENV)
    if env: e.update(env)
    if not mem and os.path.basename(cmd[0]).startswith("wcc") and "-asan" not in cmd[0]: mem = 4 << 30     # a compiler that runs away
    p = subprocess.Popen(_limits(cpu, mem) + list(cmd), cwd=cwd, start_new_session=True, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    to = False
    try:
        out, err = p.communicate(input.encode("latin-1") if isinstance(input, str) else input, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, err = p.communicate()
    if text:
        out, err = out.decode("latin-1"), err.decode("latin-1")
    return Res(p.returncode, out, err, to)


# ----------------------------------------------------------------------------- scratch
_scratch = None


def scratch():
    """A scratch directory of this process tree, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="wccmc-", dir="/tmp")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_n = 0


def subdir(tag="d"):
    global _n
    _n += 1
    d = os.path.join(scratch(), f"{tag}-{os.getpid()}-{_n}")
    os.makedirs(d)
    return d


def rmtree(d):
    shutil.rmtree(d, ignore_errors=True)


def write(path, text):
    with open(path, "w", encoding="latin-1") as f: f.write(text)
    return path


def read(path):
    with open(path, encoding="latin-1") as f: return f.read()


# ----------------------------------------------------------------------------- building the tree under test
def _sources():
    out = []
    for d in ("", "include"):
        dd = os.path.join(REPO, d)
        for n in sorted(os.listdir(dd)):
            fp = os.path.join(dd, n)
            if not os.path.isfile(fp): continue
            if n.endswith((".c", ".h")) or n == "Makefile":
                if n in ("internals.c", "instrrules-generated.c"): continue
                out.append(os.path.join(d, n))
    return out


def tree_hash():
    h = hashlib.sha256()
    for s in _sources():
        with open(os.path.join(REPO, s), "rb") as f:
            h.update(s.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:16]


def _bin():
    """A gcc that adds -fcommon (wcc.h defines its globals in a header)."""
    d = os.path.join(VERIF, "mc", "bin")
    return d


def build(variant="plain"):
    """Builds wcc from /repo's working tree with its own Makefile, in a copy. Returns the directory.
    Variants: plain, asan, self (also wcc2 and wcc3, built by wcc)."""
    base = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
    os.makedirs(base, exist_ok=True)
    key = tree_hash() + "-" + variant
    final = os.path.join(base, key)
    with open(os.path.join(base, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, ".ok")): return final
        shutil.rmtree(final, ignore_errors=True)
        os.makedirs(os.path.join(final, "include"))
        for s in _sources():
            shutil.copy(os.path.join(REPO, s), os.path.join(final, s))
        env = {"PATH": _bin() + ":" + ENV["PATH"]}
        cmd = ["make", "--eval=.DELETE_ON_ERROR:", "-j%d" % NPROC]
        if variant == "asan":
            env["MC_GCC_EXTRA"] = "-fsanitize=address -fno-omit-frame-pointer -O1"
            env["ASAN_OPTIONS"] = "detect_leaks=0"
        targets = {"plain": ["wcc"], "asan": ["wcc"], "self": ["wcc", "wcc2"]}[variant]
        r = run(cmd + targets, cwd=final, timeout=800, env=env)
        if r.rc != 0:
            raise CheckError(f"building wcc ({variant}) failed:\n{r.out[-2000:]}\n{r.err[-3000:]}")
        if variant == "self":
            r = run(cmd + ["wcc3"], cwd=final, timeout=800, env=env)
            if r.rc != 0: raise CheckError(f"building wcc3 failed:\n{r.out[-2000:]}\n{r.err[-3000:]}")
        open(os.path.join(final, ".ok"), "w").close()
        # Drop older builds: disk space is limited
        olds = sorted((d for d in os.listdir(base) if os.path.exists(os.path.join(base, d, ".ok")) and d.split("-")[0] != key.split("-")[0]),
                      key=lambda d: os.path.getmtime(os.path.join(base, d, ".ok")))
        for d in olds[:-6]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            try: os.remove(os.path.join(base, d + ".lock"))
            except OSError: pass
    return final


def build_rt(name, flags=("-O1",)):
    """Compiles a runtime C file of /verif/mc/rt with gcc, once per run. Returns the object."""
    src = os.path.join(RT, name)
    o = os.path.join(scratch(), os.path.basename(name) + ".o")
    if not os.path.exists(o):
        r = run(["gcc", *flags, "-c", src, "-o", o], timeout=120)
        if r.rc: raise CheckError(f"compiling {name}: {r.err}")
    return o


# ----------------------------------------------------------------------------- known findings
def known_findings(prop):
    """[(pattern, text)] of findings recorded, not repaired."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) case=(\S+) :: (.*)", line.strip())
            if m and m[1] == prop: out.append((m[2], m[3]))
    return out


# ----------------------------------------------------------------------------- the report of one check
class Report:
    """level: exploration | model_checking | fault_enumeration."""

    def __init__(self, prop, level, rule, assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.outcomes = set()
        self.nontrivial = 0
        self.samples = []
        self.fails = {}     # key -> (detail, files)
        self.known_hit = {}
        self.known = known_findings(prop)
        self.extra = {}
        self.states = self.transitions = self.traces = self.paths = self.cuts = 0
        self.exhaustive = True
        self.out_of_time = False

    def match_known(self, key):
        for pat, text in self.known:
            if key == pat or ("*" in pat and fnmatch.fnmatchcase(key, pat)): return pat
        return None

    def fail(self, key, detail, files=None):
        """files: {name: text} of the replay artefact."""
        k = self.match_known(key)
        if k is not None:
            self.known_hit.setdefault(k, key)
            return False
        if key not in self.fails: self.fails[key] = (detail, files or {})
        return True

    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)

    def finish(self):
        wall = time.time() - self.t0
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.nontrivial or len(self.outcomes), "rule": self.rule,
               "samples": self.samples, "exhaustive": self.exhaustive}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        if self.paths: cov.update(paths_explored=self.paths, choices_made=self.transitions, paths_cut_at_the_depth_bound=self.cuts)
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.fails)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for pat, text in self.known:
            if pat in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {pat} {text}")
        stale = [p for p, _ in self.known if p not in self.known_hit]
        for p in stale: print(f"note: known finding not reproduced in this run: {p}")
        print(f"{self.prop}: {self.evals} evaluations, {cov['distinct_nontrivial']} distinct non-trivial, "
              f"{len(self.fails)} violations, {wall:.1f}s")
        if os.environ.get("MC_KEYS"):
            with open(os.environ["MC_KEYS"], "w") as f:
                for k, (d, _) in sorted(self.fails.items()): f.write(k + "\t" + " ".join(d.split())[:600] + "\n")
        if not self.fails: return 0
        base = os.path.join(VERIF, "replays", self.prop)
        shutil.rmtree(base, ignore_errors=True)
        for i, (key, (detail, files)) in enumerate(list(self.fails.items())[:12]):
            d = os.path.join(base, str(i))
            os.makedirs(d)
            write(os.path.join(d, "README"), f"property {self.prop}\ncase {key}\n\n{detail}\n")
            for n, t in files.items(): write(os.path.join(d, n), t)
            print(f"--- {key}: {detail.splitlines()[0] if detail else ''}")
            print(f"VIOLATION property={self.prop} replay={d}")
        if len(self.fails) > 12: print(f"... and {len(self.fails) - 12} more")
        return 1


# ----------------------------------------------------------------------------- parallel map
_task_fn = None
_task_state = None


def _call(arg):
    try:
        return ("ok", _task_fn(arg))
    except Exception:
        return ("err", traceback.format_exc())


def _winit():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def pmap(fn, items, stop=None, nproc=None, chunksize=1):
    """Unordered parallel map over forked workers; yields results as they come. stop(): end early."""
    global _task_fn
    scratch()
    _task_fn = fn
    items = list(items)
    if not items: return
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(nproc or NPROC, len(items)), initializer=_winit)
    try:
        for kind, val in pool.imap_unordered(_call, items, chunksize):
            if kind == "err": raise CheckError("worker failed:\n" + val)
            yield val
            if stop and stop(): break
    finally:
        pool.terminate()
        pool.join()


def main_wrapper(fn):
    try:
        rc = fn()
    except CheckError as e:
        print("CHECK-ERROR:", e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
