"""C27: the compiler is a function of its input: every allocator placement from an enumerated set, every environment from an enumerated set, and
every generation of the compiler (built by gcc, by wcc, by the wcc built by wcc) gives the same bytes; every successful compilation frees all it allocated."""
import glob, hashlib, os
from .. import core, corpus
from ..core import Report, read, run, write
from . import c07

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive exploration of nondeterminism sources (an interposed allocator with every placement from a set, poisoned contents, canaries; environments; address space layouts) x enumerated programs x options, and differential replay of three generations of the compiler, with the output bytes, diagnostics and exit status as observation"
NOTE = "Wall-clock time is left out (__TIME__, __DATE__). The programs are the families of C01-C22, the repository's own sources and tests: in part in the quick tier (one batch in so many), more of them in the thorough one."

ALLOCS = ["0", "1", "2", "3"]


def programs(full):
    out = []
    for n, every in {"c01": 57, "c02": 36, "c03": 31, "c04": 27, "c05": 28, "c06": 19, "c11": 17, "c12": 29, "c13": 17, "c14": 21, "c15": 30, "c16": 9, "c22": 15}.items():
        out += corpus.engine_programs(n, max(1, every // 8) if full else every)
    eng = c07.Engine(Report("C27", LEVEL, "", []))
    pc = list(c07.pressure(False))
    for b in corpus.chunks(pc, 24)[::1 if full else 6]: out.append(corpus.Prog("C07:" + b[0].key, eng.source(b), []))
    for n, every in {"c17": 250, "c18": 330, "c22": 9}.items(): out += corpus.verdict_programs(n, max(1, every // 8) if full else every)
    for n, every in {"c19": 190, "c20": 250}.items(): out += corpus.pp_programs(n, max(1, every // 16) if full else every, 4)
    return out


def sources(full):
    """The repository's own: (path, flags, cwd)"""
    out = []
    for p in sorted(glob.glob(os.path.join(core.REPO, "*.c"))):
        if os.path.basename(p) in ("internals.c", "instrrules-generated.c"): continue
        out.append((p, ["-D", "BUILD_DIR=\"x\""]))
    for d in ("e2e", "integration", "unit", "cpp"):
        for p in sorted(glob.glob(os.path.join(core.REPO, "tests", d, "*.c"))):
            if os.path.getsize(p) > 300000: continue
            if "-output" in p or "-result" in p or "gen-" in os.path.basename(p): continue
            out.append((p, ["-I", core.REPO, "-I", os.path.dirname(p)]))
    return out


def hash_(key): return int(hashlib.sha256(key.encode()).hexdigest()[:8], 16)


class Check:
    def __init__(self, rep, full):
        self.rep, self.full = rep, full
        self.bin = {g: os.path.join(core.build("self"), g) for g in ("wcc", "wcc2", "wcc3")}
        self.gens = ["wcc2"]
        self.so = os.path.join(core.scratch(), "alloc.so")
        r = run(["gcc", "-O1", "-shared", "-fPIC", "-fno-builtin", os.path.join(core.RT, "alloc.c"), "-o", self.so])
        if r.rc: raise core.CheckError(r.err)

    def compile(self, d, g, src, flags, env=None, pre=(), mode="-S"):
        o = os.path.join(d, "out")
        try: os.unlink(o)
        except OSError: pass
        r = run([*pre, self.bin[g], *flags, mode, src, "-o", o], cwd=d, timeout=200, cpu=150, mem=12 << 30, env=env)
        live = None
        err = []
        for l in r.err.splitlines():
            if l.startswith("#live "): live = int(l[6:])
            else: err.append(l)
        t = None
        if os.path.exists(o):
            with open(o, "rb") as f: t = f.read()
        return (r.rc if not r.timeout else "timeout", r.out, "\n".join(err), t), live

    def one(self, job):
        key, text, flags, files, path, mode = job
        d = core.subdir("d")
        bad, n = [], 0
        try:
            for f, t in files.items(): write(os.path.join(d, f), t)
            src = path or write(os.path.join(d, "a.c"), text)
            base, _ = self.compile(d, "wcc", src, flags, mode=mode)
            n += 1
            if base[0] == "timeout" or isinstance(base[0], int) and base[0] < 0: return [], n, None     # C23's

            def cmp(what, r, live=None):
                if r == base:
                    if live and base[0] == 0: bad.append((what, f"{live} blocks are still allocated at the end"))
                    return
                if r[0] != base[0]: det = f"exit status {r[0]} instead of {base[0]}: {(r[2] + r[1])[-200:]}"
                elif r[3] != base[3]:
                    a, b = (base[3] or b"").split(b"\n"), (r[3] or b"").split(b"\n")
                    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                    det = f"output differs at line {k + 1}: {a[k:k + 1]!r} became {b[k:k + 1]!r}"
                else: det = f"messages differ: {base[2][-150:]!r} became {r[2][-150:]!r}"
                bad.append((what, det))
            for g in self.gens:
                cmp(g, self.compile(d, g, src, flags, mode=mode)[0])
                n += 1
            k = hash_(key)
            for a in ALLOCS if self.full else [ALLOCS[k % 4], ALLOCS[(k + 1 + k // 4 % 3) % 4]]:
                r, live = self.compile(d, "wcc", src, flags, env={"MC_ALLOC": a, "LD_PRELOAD": self.so, "MC_LIVE": "1"}, mode=mode)
                n += 1
                cmp("allocator " + a, r, live)
            r, live = self.compile(d, "wcc2", src, flags, env={"MC_ALLOC": "2", "LD_PRELOAD": self.so, "MC_LIVE": "1"}, mode=mode)
            cmp("wcc2, allocator 2", r, live)
            # environments: a large one, an empty one, a repeated run, and the leak check of the compiler itself
            cmp("large environment", self.compile(d, "wcc", src, flags, env={"X" * 50: "y" * 100000, "MALLOC_PERTURB_": "173", "LC_ALL": "C.UTF-8", "TZ": "UTC", "COLUMNS": "20"}, mode=mode)[0])
            cmp("fixed layout", self.compile(d, "wcc", src, flags, pre=["setarch", "-R"], mode=mode)[0])
            n += 3
            if base[0] == 0:
                cmp("--fail-on-leaked-memory", self.compile(d, "wcc", src, ["--fail-on-leaked-memory", *flags], mode=mode)[0])
                n += 1
            h = hashlib.sha256((base[3] or base[2].encode("latin-1"))).hexdigest()
            return [(key, what, det, text if not path else None, flags, path) for what, det in bad], n, h
        finally:
            core.rmtree(d)


def main():
    full = core.THOROUGH
    rep = Report("C27", LEVEL, "program x options x (allocator placement, environment, compiler generation); non-trivial: distinct outputs", ["the allocator's interface is what glibc documents"])
    ch = Check(rep, full)
    # the fixpoint: what the second and the third generation make of every source of the compiler
    d = core.build("self")
    fix = 0
    for s in sorted(glob.glob(os.path.join(d, "build", "wcc2", "*.s"))):
        t = s.replace("/wcc2/", "/wcc3/")
        if not os.path.exists(t): raise core.CheckError("no " + t)
        fix += 1
        if read(s).replace("build/wcc2", "") != read(t).replace("build/wcc3", ""): rep.fail("fixpoint:" + os.path.basename(s), "the compiler built by wcc compiles this source differently from the compiler built by gcc")
    rep.extra["fixpoint_sources"] = fix
    if rep.fails: ch.gens.append("wcc3")        # otherwise the third is the second
    jobs = []
    progs = programs(full)
    fl = [[], ["-g"], ["-fPIC"], c07.BASE]
    for k, p in enumerate(progs):
        pp = p.key[:3] in ("C19", "C20")
        if pp: jobs.append((p.key, p.text, p.flags, p.files, None, "-E"))
        else:
            for f in ([fl[k % 4]] if not full or k % 3 else fl): jobs.append((" ".join([*f, p.key]), p.text, [*p.flags, *f], p.files, None, "-S"))
            if k % 6 == 0: jobs.append(("-E " + p.key, p.text, p.flags, p.files, None, "-E"))
    srcs = sources(full)
    for k, (p, f) in enumerate(srcs):
        big = os.path.getsize(p) > 60000
        jobs.append((os.path.relpath(p, core.REPO), None, f, {}, p, "-S"))
        if full: jobs.append(("-E " + os.path.relpath(p, core.REPO), None, f, {}, p, "-E"))
    jobs.sort(key=lambda j: -(os.path.getsize(j[4]) if j[4] else len(j[1])))
    for j in jobs[:2] + jobs[-2:]: rep.sample(j[0])
    for bads, n, h in core.pmap(ch.one, jobs, stop=lambda: len(rep.fails) > 30):
        rep.evals += n
        if h: rep.outcomes.add(h)
        for key, what, det, text, flags, path in bads:
            cmd = {"wcc2": "wcc2", "wcc3": "wcc3"}.get(what.split(",")[0], "wcc")
            rep.fail(f"{what}:{key}", det, {"a.c": text} if text else {"README2": path})
    rep.extra["programs"] = len(jobs)
    return rep.finish()
