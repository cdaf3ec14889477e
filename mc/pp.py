"""Preprocessor checks. A case is (key, definitions, inputs, after): lines of definitions, texts to preprocess, lines that undo the definitions.
The token sequence of each text must be the same for wcc -E, gcc -E and clang -E (where the last two agree)."""
import os, re
from . import core
from .core import run, write

TOK = re.compile(r'''(?P<id>[A-Za-z_]\w*(?!["'\w])|L(?=[^"'\w]|$)|[A-KM-Za-z_]\w*|L\w+)|(?P<num>\.?[0-9](?:[eE][+-]|[\w.])*)|(?P<str>L?"(?:[^"\\\n]|\\.)*"|L?'(?:[^'\\\n]|\\.)*')|(?P<pu>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[*/%+\-&^|]=|\#\#|\S)''')
MARK = re.compile(r"mc_mark_(\d+)_(\d+)$")


def tokens(text):
    text = re.sub(r"(?m)^[ \t]*#[ \t]*(\d+|line|pragma)\b.*$", "", text)
    return [m.group() for m in TOK.finditer(text)]


def split(text):
    """{(case, input): tokens} of a preprocessed batch"""
    res, cur = {}, None
    for t in tokens(text):
        m = MARK.match(t)
        if m: cur = res.setdefault((int(m[1]), int(m[2])), [])
        elif cur is not None: cur.append(t)
    return res


class Case:
    __slots__ = ("key", "defs", "inputs", "after", "solo")

    def __init__(self, key, defs, inputs, after=(), solo=False):
        self.key, self.defs, self.inputs, self.after, self.solo = key, defs, inputs, after, solo

    def text(self, i):
        s = "".join(d + "\n" for d in self.defs)
        for j, t in enumerate(self.inputs): s += f"mc_mark_{i}_{j}\n{t}\n"
        s += f"mc_mark_{i}_{len(self.inputs)}\n"
        names = [re.match(r"\s*#\s*define\s+(\w+)", d) for d in self.defs]
        return s + "".join(f"#undef {m[1]}\n" for m in names if m) + "".join(a + "\n" for a in self.after)


def reference(args):
    """[{(case, input): tokens}, {case: message}] of gcc and clang"""
    cases, flags, files = args
    d = core.subdir("pp")
    for n, t in (files or {}).items(): write(os.path.join(d, n), t)
    text, starts = "", []
    line = 1
    for i, c in enumerate(cases):
        t = c.text(i)
        starts.append(line)
        line += t.count("\n")
        text += t
    f = write(os.path.join(d, "b.c"), text)
    res = []
    for cc in ("gcc", "clang"):
        r = run([cc, "-E", "-std=gnu89", "-w", "-undef", "-nostdinc", *(["-fmax-errors=0"] if cc == "gcc" else ["-ferror-limit=0"]), *flags, "b.c"], cwd=d, timeout=120)
        bad = {}
        if len(cases) == 1:
            m = re.search(r"(?m)^\S+:\d+:(?:\d+:)? (?:fatal )?error: (.*)$", r.err)
            if m: bad[0] = m[1]
        for m in re.finditer(r"(?m)^[^\s:]*b\.c:(\d+):(?:\d+:)? (?:fatal )?error: (.*)$", r.err):
            n = int(m[1])
            k = max(i for i, s in enumerate(starts) if s <= n)
            bad.setdefault(k, m[2])
        res.append((split(r.out), bad, r.err))
    core.rmtree(d)
    return res


def wcc_pp(wcc, cases, flags, files, single=False):
    d = core.subdir("wpp")
    try:
        for n, t in (files or {}).items(): write(os.path.join(d, n), t)
        write(os.path.join(d, "b.c"), "".join(c.text(i) for i, c in enumerate(cases)))
        r = run([wcc, "-E", *flags, "b.c"], cwd=d, timeout=60, cpu=30)
        return r
    finally:
        core.rmtree(d)


ERR = re.compile(r"(?m)^[^\s:][^:\n]*:\d+: (?:\x1b\[[0-9;]*m)*error: \S")


class PP:
    def __init__(self, rep, flags=(), ref_flags=(), files=None):
        self.rep, self.flags, self.ref_flags, self.files = rep, list(flags), list(ref_flags), files
        self.wcc = os.path.join(core.build("plain"), "wcc")
        self.undecided = self.skipped = 0

    def _wcc(self, cases):
        """[(case, r | None, tokens)]: output tokens of every case, None for a failed one"""
        r = wcc_pp(self.wcc, cases, self.flags, self.files)
        if r.rc == 0:
            s = split(r.out)
            if len(cases) == 1 or all((i, len(c.inputs)) in s for i, c in enumerate(cases)):
                return [(c, r, [s.get((i, j)) for j in range(len(c.inputs))]) for i, c in enumerate(cases)]
        if len(cases) == 1: return [(cases[0], r, None)]
        h = len(cases) // 2
        return self._wcc(cases[:h]) + self._wcc(cases[h:])

    def _batch(self, cases):
        (g, gb, ge), (c, cb, ce) = reference((cases, self.ref_flags, self.files))
        good, reject, und = [], [], 0
        want = {}
        for i, case in enumerate(cases):
            if i in gb or i in cb:
                msgs = gb.get(i, "") + cb.get(i, "")
                if "valid preprocessing token" in msgs or "invalid preprocessing token" in msgs or "pasting formed" in msgs: und += 1      # undefined behaviour
                elif i in gb and i in cb: reject.append(case)
                else: und += 1
                continue
            w = []
            for j in range(len(case.inputs)):
                a, b = g.get((i, j)), c.get((i, j))
                w.append(a if a == b else None)
            if all(x is None for x in w): und += 1
            else:
                good.append(case)
                want[case.key] = w
        fails, evals, outs = [], 0, set()
        if good:
            for case, r, toks in self._wcc(good):
                w = want[case.key]
                for j, t in enumerate(case.inputs):
                    if w[j] is None: und += 1; continue
                    evals += 1
                    outs.add((tuple(case.defs), t, tuple(w[j])))
                    if toks is None:
                        if r.timeout: det = "does not terminate"
                        elif r.rc < 0: det = f"died from signal {-r.rc}"
                        else: det = f"exit status {r.rc}: " + (r.err + r.out).strip()[-200:]
                        fails.append((case, j, det)); break
                    if toks[j] != w[j]: fails.append((case, j, f"got {' '.join(toks[j] or ['(nothing)'])[:300]} expected {' '.join(w[j])[:300]}"))
        for case in reject:
            evals += 1
            r = wcc_pp(self.wcc, [case], self.flags, self.files)
            if r.timeout or r.rc == 0 or r.rc < 0 or not ERR.search(r.err + r.out):
                fails.append((case, -1, f"error not diagnosed: exit status {r.rc} {(r.err)[-200:]}"))
            outs.add((tuple(case.defs), tuple(case.inputs), "rejected"))
        return fails, evals, len(outs), und

    def go(self, cases, batch=150):
        cases = list(cases)
        seen = set()
        for c in cases:
            if c.key in seen: raise core.CheckError("duplicate key " + c.key)
            seen.add(c.key)
        solo, cases = [c for c in cases if c.solo], [c for c in cases if not c.solo]
        bs = [[c] for c in solo] + [cases[i:i + batch] for i in range(0, len(cases), batch)]
        for fails, evals, outs, und in core.pmap(self._batch, bs):
            self.rep.evals += evals
            self.rep.nontrivial += outs
            self.undecided += und
            for case, j, det in fails:
                key = case.key if j < 0 or len(case.inputs) == 1 else f"{case.key} <- {case.inputs[j]}"
                one = Case(case.key, case.defs, [case.inputs[j]] if j >= 0 else case.inputs, case.after)
                self.rep.fail(key.replace("\n", "\\n"), det, {"a.c": one.text(0), **{n: t for n, t in (self.files or {}).items()}, "run.sh": f"cd $(dirname $0); ${{1:-/repo/wcc}} -E {' '.join(self.flags)} a.c; echo ---- reference; gcc -E -undef -nostdinc -std=gnu89 a.c\n"})
        self.rep.extra.update(undecided=self.undecided)
