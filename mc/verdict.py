"""Accept/reject verdicts. Cases are (key, text); `@` in the text stands for the case's number. The reference verdict needs gcc and clang
(-std=gnu89 -pedantic-errors) to agree; wcc's verdict on programs to accept comes from batches, bisected, and on the others from single runs."""
import bisect, os, re
from . import core
from .core import run, write, read

MSG = re.compile(r"^[^\s:][^:\n]*:\d+: (?:\x1b\[[0-9;]*m)*error: \S", re.M)


class Case:
    __slots__ = ("key", "src", "extra")

    def __init__(self, key, src, extra=None):
        self.key, self.src, self.extra = key, src, extra

    def text(self, i): return self.src.replace("@", str(i))


def ref_batch(arg):
    """For gcc and clang: the numbers of the cases of a batch with a pedantic error, and of those with an error by default."""
    cases, prologue, std = arg
    d = core.subdir("ref")
    lines, starts, owner = prologue.count("\n") + 1, [], []
    out = [prologue]
    for i, c in enumerate(cases):
        t = c.text(i).strip("\n")
        starts.append(lines + 1)
        out.append(t)
        lines += t.count("\n") + 1
    f = write(os.path.join(d, "b.c"), "\n".join(out) + "\n")
    res = []
    for cc in (["gcc", "-fmax-errors=0", "-fno-diagnostics-show-caret"], ["clang", "-ferror-limit=0", "-fno-caret-diagnostics", "-Wno-strict-prototypes", "-Wno-deprecated-non-prototype"]):
        for ped in (["-pedantic-errors"], ["-w"]):
            r = run([*cc, f"-std={std}", *ped, "-fno-builtin", "-fcommon", "-O0", "-c", f, "-o", os.path.join(d, "b.o")], timeout=300)
            bad = set()
            for m in re.finditer(r"^[^\s:]*b\.c:(\d+):(?:\d+:)? (?:fatal )?error:", r.err, re.M):
                k = bisect.bisect_right(starts, int(m[1])) - 1
                if k < 0: raise core.CheckError("error in the prologue: " + r.err[:500])
                bad.add(k)
            if r.rc and not bad: raise core.CheckError("no located error from the reference: " + r.err[-500:])
            res.append(bad)
    core.rmtree(d)
    return res


def classify(i, res):
    """accepted: both compilers accept it in pedantic mode; rejected: both reject it by default; diagnosed: both reject it in pedantic mode."""
    gp, gd, cp, cd = (i in x for x in res)
    return "accepted" if not gp and not cp else "rejected" if gd and cd else "diagnosed" if gp and cp else "undecided"


def wcc_run(wcc, text, flags=(), keep=False, asm=True):
    """(verdict, detail): ok, reject, or a failure: crash, hang, nomsg, left."""
    d = core.subdir("w")
    try:
        f = write(os.path.join(d, "a.c"), text)
        o = os.path.join(d, "a.o" if asm else "a.s")
        r = run([wcc, *flags, "-c" if asm else "-S", "a.c", "-o", o], cwd=d, timeout=60, cpu=30)
        msg = (r.err + r.out).strip()
        if r.timeout or r.rc in (-9, -24): return "hang", "does not terminate"
        if r.rc < 0: return "crash", f"died from signal {-r.rc}"
        if r.rc == 0: return ("ok", msg) if os.path.exists(o) else ("noout", "exit status 0 without output")
        if not MSG.search(msg): return "nomsg", f"exit status {r.rc} without a located error message: {msg[-200:]!r}"
        if os.path.exists(o): return "left", "rejected, but an output file was left: " + msg[-200:]
        return "reject", msg[-300:]
    finally:
        core.rmtree(d)


def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]


class Verdicts:
    def __init__(self, rep, prologue="", std="gnu89", flags=()):
        self.rep, self.prologue, self.std, self.flags = rep, prologue, std, flags
        self.wcc = os.path.join(core.build("plain"), "wcc")
        self.accepted, self.rejected, self.diagnosed, self.undecided = [], [], [], []
        self.bad = set()        # valid programs that wcc does not accept
        self.nconf = 0

    def reference(self, cases, batch=200):
        bs = chunks(cases, batch)
        for n, res in core.pmap(lambda n: (n, ref_batch((bs[n], self.prologue, self.std))), range(len(bs))):
            for i, case in enumerate(bs[n]): getattr(self, classify(i, res)).append(case)

    def confirmed(self, case, want):
        """Has a case, alone, the reference verdict that it had in its batch?"""
        if os.environ.get("MC_NOCONF"): return True
        if self.nconf > 40: return False
        if classify(0, ref_batch(([case], self.prologue, self.std))) != want: return False
        self.nconf += 1
        return True

    def _accept(self, b):
        """failures [(case, verdict, detail)] of a batch that should compile."""
        v, det = wcc_run(self.wcc, self.prologue + "\n" + "\n".join(c.text(i) for i, c in enumerate(b)) + "\n", self.flags)
        if v == "ok": return []
        if len(b) == 1: return [(b[0], v, det)]
        h = len(b) // 2
        return self._accept(b[:h]) + self._accept(b[h:])

    def _single(self, c):
        v, det = wcc_run(self.wcc, self.prologue + "\n" + c.text(0) + "\n", self.flags, asm=False)
        return c, v, det

    def report(self, c, want, what, v, det, expect):
        if self.rep.match_known(c.key) is not None or self.confirmed(c, want):
            t = self.prologue + "\n" + c.text(0) + "\n"
            self.rep.fail(c.key, f"{what} ({v}): {det}\n{c.text(0)}", {"a.c": t, "run.sh": f"# wcc -c a.c should {expect}\n"})

    def check_accepted(self, batch=100):
        self.rep.evals += len(self.accepted)
        for fs in core.pmap(self._accept, chunks(self.accepted, batch)):
            for c, v, det in fs:
                self.bad.add(c.key)
                self.report(c, "accepted", "valid program not accepted", v, det, "succeed")

    def check_rejected(self):
        self.rep.evals += len(self.rejected)
        for c, v, det in core.pmap(self._single, self.rejected, chunksize=16):
            if v != "reject" and not (v == "ok" and "warning: Incompatible types in assignment" in det): self.report(c, "rejected", "constraint violation not rejected properly", v, det, "fail with a located message")

    def check_diagnosed(self):
        """Constraint violations that the references only diagnose in pedantic mode: wcc must reject or warn, or accept silently what it documents."""
        self.rep.evals += len(self.diagnosed)
        for c, v, det in core.pmap(self._single, self.diagnosed, chunksize=16):
            if not (v == "reject" or v == "ok" and "warning" in det): self.report(c, "diagnosed", "constraint violation not diagnosed", v, det, "warn or fail")
