"""The programs of the other checks' families, for checks that compare compilations rather than results."""
import importlib
from . import core, diff, pp, verdict

ALL = ["c01", "c02", "c03", "c04", "c05", "c06", "c11", "c12", "c13", "c14", "c15", "c16", "c22"]


class Prog:
    __slots__ = ("key", "text", "flags", "files", "cases")

    def __init__(self, key, text, flags=(), files=None, cases=None):
        self.key, self.text, self.flags, self.files, self.cases = key, text, list(flags), files or {}, cases


class _Quiet(core.Report):
    def finish(self): return 0


def record(name):
    """Runs the main() of a check with everything that would compile replaced by recording. Returns (engine batches, verdict cases, preprocessor cases)."""
    mod = importlib.import_module("mc.checks." + name)
    eng, ver, pps = [], [], []
    saved = diff.Engine.go, verdict.Verdicts.reference, pp.PP.go, core.pmap, getattr(mod, "Report", None)

    def go(self, cases, batch=150): eng.append((self, list(cases), batch))
    def reference(self, cases, batch=200): ver.append((self, list(cases)))
    def ppgo(self, cases, batch=150): pps.append((self, list(cases), batch))
    try:
        diff.Engine.go, verdict.Verdicts.reference, pp.PP.go = go, reference, ppgo
        core.pmap = lambda *a, **k: iter(())
        if saved[4]: mod.Report = _Quiet
        mod.main()
    finally:
        diff.Engine.go, verdict.Verdicts.reference, pp.PP.go, core.pmap = saved[:4]
        if saved[4]: mod.Report = saved[4]
    return eng, ver, pps


def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]


def engine_programs(name, every=1, size=None, phase=0):
    out = []
    for e, cases, batch in record(name)[0]:
        for n, b in enumerate(chunks(cases, size or batch)):
            if (n + phase) % every: continue
            out.append(Prog(f"{name.upper()}:{b[0].key}", e.source(b), e.wcc_flags, None, (e, b)))
    return out


def verdict_programs(name, every=1):
    out = []
    for v, cases in record(name)[1]:
        for c in cases[::every]: out.append(Prog(f"{name.upper()}:{c.key}", v.prologue + "\n" + c.text(0) + "\n", v.flags))
    return out


def pp_programs(name, every=1, size=1):
    out = []
    for p, cases, batch in record(name)[2]:
        cs = [c for c in cases]
        for n, b in enumerate(chunks(cs, size)):
            if n % every: continue
            out.append(Prog(f"{name.upper()}:{b[0].key}", "".join(c.text(i) for i, c in enumerate(b)), p.flags, p.files))
    return out
