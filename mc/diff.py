"""The differential engine: enumerated cases are compiled in batches by wcc and by a reference compiler, linked with the
monitoring runtime, run, and compared case by case. A case is (key, decls, body): `@` in both stands for the case's number.
Its code logs what it observes with emit*(). Disagreements are rerun alone, and judged only if gcc and clang agree."""
import os, re
from . import core
from .core import run, write, read

PRE = """void emit(long); void emitu(unsigned long); void emitf(float); void emitd(double); void emitld(long double);
void emits(char *); void emitb(void *, long); int choose(void); int pick(int); void explore(void (*)(void), long);
"""
SIGS = {11: "SIGSEGV", 7: "SIGBUS", 8: "SIGFPE", 4: "SIGILL", 26: "hang", 5: "SIGTRAP", 6: "SIGABRT"}


class Case:
    __slots__ = ("key", "decls", "body")

    def __init__(self, key, body, decls=""):
        self.key, self.decls, self.body = key, decls, body

    def text(self, i):
        n = str(i)
        return self.decls.replace("@", n) + "\nvoid t" + n + "(void) {\n" + self.body.replace("@", n) + "\n}\n"


class Engine:
    def __init__(self, rep, prologue="", wcc_flags=(), ref_flags=("-std=gnu89",), pre=PRE, aux=None, wcc=None, discipline=False,
                 confirm=True, maxfail=int(os.environ.get("MC_MAXFAIL", "25")), judge=None, link_flags=(), nowarn=False):
        """aux: C text compiled by gcc and linked on both sides."""
        self.rep, self.prologue, self.wcc_flags, self.ref_flags = rep, prologue, list(wcc_flags), list(ref_flags)
        self.pre, self.aux_src, self.discipline, self.confirm, self.maxfail = pre, aux, discipline, confirm, maxfail
        self.judge, self.nowarn = judge, nowarn     # nowarn: a diagnostic for a case is a failure too
        self.link_flags = list(link_flags)
        self.wcc = wcc or os.path.join(core.build("plain"), "wcc")
        d = core.scratch()
        self.rt = os.path.join(d, "run.o")
        if not os.path.exists(self.rt):
            r = run(["gcc", "-O1", "-c", os.path.join(core.RT, "run.c"), "-o", self.rt])
            r2 = run(["as", os.path.join(core.RT, "stubs.s"), "-o", os.path.join(d, "stubs.o")])
            if r.rc or r2.rc: raise core.CheckError("runtime: " + r.err + r2.err)
        self.objs = [self.rt, os.path.join(d, "stubs.o")]
        if aux:
            p = os.path.join(core.subdir("aux"), "aux.c")
            write(p, aux)
            r = run(["gcc", "-O1", "-w", "-c", p, "-o", p[:-2] + ".o"])
            if r.rc: raise core.CheckError("aux: " + r.err)
            self.objs.append(p[:-2] + ".o")
        self.nfail = 0
        self.last_counts = [0, 0, 0]
        self.counts = [0, 0, 0]     # of the last batch: paths, decisions, cut paths
        self.run_hashes = set()

    # -- building blocks
    def source(self, cases):
        return self.pre + self.prologue + "\n" + "".join(c.text(i) for i, c in enumerate(cases))

    def table(self, d, n):
        p = os.path.join(d, "table.o")
        if not os.path.exists(p):
            s = "\t.data\n\t.globl mc_cases, mc_n\n\t.balign 8\nmc_n: .quad %d\nmc_cases:\n" % n + "".join("\t.quad t%d\n" % i for i in range(n))
            s += '\t.section .note.GNU-stack,"",@progbits\n'
            r = run(["as", "-o", p], input=s)
            if r.rc: raise core.CheckError("table: " + r.err)
        return p

    def compile_wcc(self, d, src, tag="w", flags=None):
        """returns (object, None) or (None, reason)"""
        s, o = os.path.join(d, tag + ".s"), os.path.join(d, tag + ".o")
        r = run([self.wcc, *(self.wcc_flags if flags is None else flags), "-S", src, "-o", s], timeout=120, cpu=60)
        if r.timeout or r.rc in (-9, -24): return None, "wcc does not terminate"
        if r.rc < 0: return None, "wcc died from signal %d" % -r.rc
        if r.rc: return None, "wcc rejected it: " + (r.err.strip() or r.out.strip())[-300:]
        if self.nowarn and "warning" in r.err: return None, "wcc warned: " + r.err.strip()[-300:]
        a = run(["as", s, "-o", o], timeout=60)
        if a.rc: return None, "as rejected wcc's output: " + a.err.strip()[:300]
        return o, None

    def compile_ref(self, d, src, cc="gcc", tag="g"):
        o = os.path.join(d, tag + ".o")
        r = run([cc, *self.ref_flags, "-O0", "-w", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin", "-fno-pie", "-c", src, "-o", o], timeout=300)
        return (o, None) if r.rc == 0 else (None, r.err)

    def link(self, d, o, tag, n):
        exe = os.path.join(d, tag + ".exe")
        r = run(["gcc", "-no-pie", "-o", exe, *self.objs, self.table(d, n), o, *self.link_flags, "-lm"], timeout=60)
        return (exe, None) if r.rc == 0 else (None, r.err.strip()[:400])

    def execute(self, exe, n, only=None, full=False):
        """{index: (status, hash, count, discipline, misaligned, log)}"""
        cmd = [exe]
        if full or only is not None: cmd.append(str(-1 if only is None else only))
        if full: cmd.append("full")
        out = {}
        r = run(cmd, timeout=400, cpu=300, mem=4 << 30)
        for line in r.out.splitlines():
            f = line.split(" ", 6)
            if f[0] == "#":
                self.last_counts = [int(x) for x in f[1:]]
                continue
            try:
                out[int(f[0])] = (int(f[1]), f[2], int(f[3]), int(f[4], 16), int(f[5]), f[6] if len(f) > 6 else "")
            except (ValueError, IndexError):
                pass
        return out

    # -- one batch
    def top(self, job):
        self.counts = [0, 0, 0]
        return (*self.batch(job), self.counts)

    def batch(self, job):
        cases = job
        d = core.subdir("b")
        try:
            src = write(os.path.join(d, "c.c"), self.source(cases))
            g, err = self.compile_ref(d, src)
            if not g: return [("gen", cases[0].key, "gcc rejects generated code: " + err[:1500], {})], 0, set(), 0
            w, why = self.compile_wcc(d, src)
            if not w:
                if len(cases) == 1:
                    return [self.confirm_reject(cases[0], why)], 1, set(), 0
                h = len(cases) // 2
                a = self.batch(cases[:h])
                b = self.batch(cases[h:])
                if not a[0] and not b[0]:
                    # fails only together
                    return [("fail", "batch:" + cases[0].key, why + " (only when compiled together)", {"case.c": self.source(cases)})], a[1] + b[1], a[2] | b[2], 0
                return a[0] + b[0], a[1] + b[1], a[2] | b[2], a[3] + b[3]
            we, e1 = self.link(d, w, "w", len(cases))
            ge, e2 = self.link(d, g, "g", len(cases))
            if not ge: return [("gen", cases[0].key, "link of the reference failed: " + e2, {})], 0, set(), 0
            if not we:
                if len(cases) == 1: return [("fail", cases[0].key, "link failed: " + e1, self.files(cases[0]))], 1, set(), 0
                h = len(cases) // 2
                a, b = self.batch(cases[:h]), self.batch(cases[h:])
                return a[0] + b[0], a[1] + b[1], a[2] | b[2], a[3] + b[3]
            rg = self.execute(ge, len(cases))
            rw = self.execute(we, len(cases))
            self.counts = [a + b for a, b in zip(self.counts, self.last_counts)]
            fails, hashes, emits = [], set(), 0
            for i, c in enumerate(cases):
                x, y = rw.get(i), rg.get(i)
                if y is None or y[0]:
                    fails.append(("gen", c.key, f"the reference run failed: {y}", self.files(c)))
                    continue
                hashes.add(y[1])
                emits += y[2]
                bad = None
                if x is None or x[:3] != y[:3]: bad = "behaviour"
                elif self.discipline and (x[3] or x[4]): bad = "discipline"
                if bad:
                    if len(fails) < 12: fails.append(self.confirm_diff(c, cases, i, x, y, we, ge))
                    else: fails.append(("fail", c.key, "disagreement (not examined further)", self.files(c)))
            fails = [f for f in fails if f]
            return fails, len(cases), hashes, emits
        finally:
            core.rmtree(d)

    def files(self, c):
        cmd = "#!/bin/sh\n# usage: sh run.sh WCC\ncd $(dirname $0); ${1:-/repo/wcc} %s -S case.c -o w.s && gcc -no-pie w.s %s/run.c %s/stubs.s table.s %s -lm -o w && ./w -1 full\n" \
              "gcc %s -O0 -w -fwrapv -fno-builtin -no-pie case.c %s/run.c %s/stubs.s table.s %s -lm -o g && ./g -1 full\n" % (
                  " ".join(self.wcc_flags), core.RT, core.RT, "aux.c" if self.aux_src else "", " ".join(self.ref_flags), core.RT, core.RT, "aux.c" if self.aux_src else "")
        f = {"case.c": self.source([c]), "run.sh": cmd, "table.s": "\t.data\n\t.globl mc_cases, mc_n\nmc_n: .quad 1\nmc_cases: .quad t0\n"}
        if self.aux_src: f["aux.c"] = self.aux_src
        return f

    def confirm_reject(self, c, why):
        d = core.subdir("c")
        try:
            src = write(os.path.join(d, "c.c"), self.source([c]))
            if self.confirm:
                o, err = self.compile_ref(d, src, "clang", "k")
                if not o: return ("gen", c.key, "clang rejects generated code: " + err[:800], {})
            return ("fail", c.key, why, self.files(c))
        finally:
            core.rmtree(d)

    def confirm_diff(self, c, cases, i, x, y, we, ge):
        """Rerun alone; if the difference only shows in the batch, report that with the whole batch."""
        d = core.subdir("c")
        try:
            src = write(os.path.join(d, "c.c"), self.source([c]))
            w, why = self.compile_wcc(d, src)
            g, _ = self.compile_ref(d, src)
            if self.confirm:
                k, err = self.compile_ref(d, src, "clang", "k")
                if not k: return ("gen", c.key, "clang rejects generated code: " + err[:800], {})
                ke, _ = self.link(d, k, "k", 1)
                rk = self.execute(ke, 1).get(0)
                if rk is None: return ("gen", c.key, "the reference run (clang) failed", self.files(c))
                if rk[:3] != y[:3]:
                    # The references disagree (gcc -O0 folds 0.0f - (float) i to -(float) i, for one). Agreeing with either is fine.
                    if w:
                        e, err = self.link(d, w, "w", 1)
                        a = self.execute(e, 1, full=True).get(0) if e else None
                        if a and a[:3] == rk[:3] and not (self.discipline and (a[3] or a[4])): return ("split", c.key, "", {})
                        return ("fail", c.key, "(gcc and clang disagree with each other too) " + self.describe(a, self.execute(ke, 1, full=True).get(0)), self.files(c))
            if w:
                e, err = self.link(d, w, "w", 1)
                ge1, _ = self.link(d, g, "g", 1)
                if e:
                    a, b = self.execute(e, 1, full=True).get(0), self.execute(ge1, 1, full=True).get(0)
                    if a is None or a[:3] != b[:3] or (self.discipline and (a[3] or a[4])):
                        return ("fail", c.key, self.describe(a, b), self.files(c))
            a, b = self.execute(we, len(cases), i, True).get(i), self.execute(ge, len(cases), i, True).get(i)
            return ("fail", c.key, "in a batch of %d cases, case %d: " % (len(cases), i) + self.describe(a, b), {"case.c": self.source(cases)})
        finally:
            core.rmtree(d)

    def describe(self, a, b):
        if a is None: return "the run produced nothing (process died)"
        s = ""
        if a[0]: s += "the compiled code ended with %s; " % SIGS.get(a[0], "status %d" % a[0])
        la, lb = a[5].split(), b[5].split()
        for j in range(max(len(la), len(lb))):
            p, q = la[j] if j < len(la) else "nothing", lb[j] if j < len(lb) else "nothing"
            if p != q:
                s += f"observation {j}: wcc {p}, expected {q}; "
                break
        if a[3]: s += "call discipline broken (mask 0x%x: rbx rbp r12 r13 r14 r15 rsp x87cw mxcsr DF x87stack); " % a[3]
        if a[4]: s += "stack misaligned at %d calls; " % a[4]
        return s + "wcc: %s | expected: %s" % (" ".join(la[:12]), " ".join(lb[:12]))

    # -- all
    def go(self, cases, batch=150):
        rep = self.rep
        jobs = []
        cur = []

        def chunks():
            cur = []
            for c in cases:
                cur.append(c)
                if len(cur) >= batch:
                    yield cur
                    cur = []
            if cur: yield cur
        jobs = list(chunks())
        if jobs:
            for c in (jobs[0][0], jobs[len(jobs) // 2][0], jobs[-1][-1]): rep.sample((c.key + ": " + " ".join((c.decls + " " + c.body).split()))[:400])
        gen = []
        for fails, n, hashes, emits, counts in core.pmap(self.top, jobs, stop=lambda: self.nfail >= self.maxfail or len(gen) > 5):
            rep.evals += n
            rep.paths += counts[0]
            rep.transitions += counts[1]
            rep.cuts += counts[2]
            rep.outcomes |= hashes
            rep.extra["observations"] = rep.extra.get("observations", 0) + emits
            for kind, key, detail, files in fails:
                if kind == "gen": gen.append((key, detail, files))
                elif kind == "split": rep.extra["reference_splits"] = rep.extra.get("reference_splits", 0) + 1
                elif rep.fail(key, detail, files): self.nfail += 1
        if self.nfail >= self.maxfail: rep.exhaustive = False
        if gen:
            for key, detail, files in gen[:5]:
                print("GENERATOR-ERROR", key, detail[:1500])
                if os.environ.get("MC_DEBUG"): print(files.get("case.c", "")[:3000])
            if not rep.fails: raise core.CheckError("%d generated cases are not valid test programs" % len(gen))
