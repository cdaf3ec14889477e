"""C20: conditional directives. An explicit-state model of conditional inclusion; every transition (up to a nesting bound) and every line sequence up to a depth
is replayed on wcc -E, and the model itself on gcc -E."""
import itertools, os, re
from .. import core
from ..core import Report, THOROUGH
from ..pp import Case, PP, tokens, wcc_pp, ERR

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model of conditional inclusion (stack of groups x definition of a macro); all its reachable states up to a nesting bound and all line sequences up to a depth, each replayed on wcc -E and cross-checked with gcc -E; plus exhaustively enumerated #if expressions and lookalike lines against gcc and clang"
NOTE = "Bounds: nesting 3 (4 thorough), all sequences of up to 4 (5) directives over 14 lines, #if expressions of up to 2 operators over boundary operands (signed and unsigned), one macro. Behaviour that is undefined (defined produced by a macro) isn't judged."

# ---------------------------------------------------------------- the model
# state: (stack, X); a frame is (status, seen_else), status: 0 = nothing taken yet, 1 = in the taken group, 2 = already taken, 3 = inside a skipped group
LINES = ["#if 0", "#if 1", "#if X", "#ifdef X", "#ifndef X", "#elif 0", "#elif 1", "#elif X", "#else", "#endif", "#define X 1", "#define X 0", "#undef X"]
OPEN = {"#if 0", "#if 1", "#if X", "#ifdef X", "#ifndef X"}


def active(st): return all(f[0] == 1 for f in st[0])


def step(st, line):
    """the next state, None if the line is an error"""
    stack, x = st
    act = active(st)

    def cond(l):
        w = l.split()[-1]
        if l.startswith("#ifdef"): return x is not None
        if l.startswith("#ifndef"): return x is None
        return (x or 0) != 0 if w == "X" else w != "0"

    if line in OPEN:
        return (stack + ((1 if cond(line) else 0, False) if act else (3, False),), x)
    if line in ("#define X 1", "#define X 0"):
        return (stack, int(line[-1])) if act else st
    if line == "#undef X":
        return (stack, None) if act else st
    if not stack: return None
    (s, e), rest = stack[-1], stack[:-1]
    if line == "#endif": return (rest, x)
    if e: return None
    if line == "#else":
        return (rest + (({0: 1, 1: 2, 2: 2, 3: 3}[s], True),), x)
    if s == 0: s = 1 if cond(line) else 0
    elif s == 1: s = 2
    return (rest + ((s, False),), x)


INIT = ((), None)


def trace(lines):
    """(text with a marked line after every directive, expected tokens, final state); None as expected tokens: an error"""
    st, text, want = INIT, "", []
    for i, l in enumerate(lines):
        st = step(st, l)
        text += f"{l}\nt{i} X\n"
        if st is None: return text, None, None
        if active(st): want += [f"t{i}", "X" if st[1] is None else str(st[1])]
    return text, want, st


def closed(lines):
    """close the open groups, a line after each"""
    _, want, st = trace(lines)
    if st is None: return list(lines)
    return list(lines) + ["#endif"] * len(st[0])


def explore(depth):
    """every reachable state with at most depth open groups -> shortest access sequence"""
    acc, todo = {INIT: ()}, [INIT]
    for st in todo:
        for l in LINES:
            n = step(st, l)
            if n is None or len(n[0]) > depth or n in acc: continue
            acc[n] = acc[st] + (l,)
            todo.append(n)
    return acc


class Replay:
    def __init__(self, rep):
        self.rep = rep
        self.wcc = os.path.join(core.build("plain"), "wcc")

    @staticmethod
    def text(seqs):
        return "".join(f"mc_mark_{i}_0\n{trace(s)[0]}mc_mark_{i}_1\n#undef X\n" for i, s in enumerate(seqs))

    @staticmethod
    def parse(out, n):
        res, cur = [None] * n, None
        for t in tokens(out):
            m = re.match(r"mc_mark_(\d+)_(\d)$", t)
            if m: cur = int(m[1]) if m[2] == "0" else None
            if m and m[2] == "0": res[cur] = []
            elif cur is not None: res[cur].append(t)
        return res

    def _run(self, seqs):
        d = core.subdir("c20")
        core.write(os.path.join(d, "b.c"), self.text(seqs))
        r = core.run([self.wcc, "-E", "b.c"], cwd=d, timeout=60, cpu=30)
        core.rmtree(d)
        if r.rc == 0 or len(seqs) == 1:
            o = self.parse(r.out, len(seqs)) if r.rc == 0 else [None] * len(seqs)
            return [(s, x, r) for s, x in zip(seqs, o)]
        h = len(seqs) // 2
        return self._run(seqs[:h]) + self._run(seqs[h:])

    def good(self, seqs):
        d = core.subdir("c20g")
        core.write(os.path.join(d, "b.c"), self.text(seqs))
        g = core.run(["gcc", "-E", "-undef", "-w", "-nostdinc", "b.c"], cwd=d, timeout=60)
        core.rmtree(d)
        ref = self.parse(g.out, len(seqs))
        model = [s for s, x in zip(seqs, ref) if g.rc != 0 or x != trace(s)[1]]
        if model: return [], [("model", s, x) for s, x in zip(seqs, ref) if s in model]
        fails = []
        for s, x, r in self._run(seqs):
            w = trace(s)[1]
            if x != w: fails.append((s, f"got {' '.join(x)} expected {' '.join(w)}" if x is not None else f"exit status {r.rc}: {(r.err + r.out).strip()[-200:]}"))
        return fails, []

    def bad(self, s):
        t = trace(s)[0]
        c = Case("", [], [t])
        d = core.subdir("c20b")
        core.write(os.path.join(d, "b.c"), t)
        g = core.run(["gcc", "-E", "-undef", "-w", "-nostdinc", "b.c"], cwd=d, timeout=60)
        w = core.run([self.wcc, "-E", "b.c"], cwd=d, timeout=60, cpu=30)
        core.rmtree(d)
        fails = []
        if w.timeout or w.rc == 0 or w.rc < 0 or not ERR.search(w.err + w.out): fails.append((s, f"error not diagnosed: exit status {w.rc} {w.err[-200:]}"))
        return fails, ([("model", s, g.rc)] if g.rc == 0 else [])

    def go(self, good, bad, batch=400):
        seen = set()
        good = [s for s in good if not (s in seen or seen.add(s))]
        bad = [s for s in bad if not (s in seen or seen.add(s))]
        jobs = [("g", good[i:i + batch]) for i in range(0, len(good), batch)] + [("b", s) for s in bad]
        for fails, model in core.pmap(lambda j: self.good(j[1]) if j[0] == "g" else self.bad(j[1]), jobs):
            if model: raise core.CheckError(f"the model disagrees with gcc: {model[:3]}")
            for s, det in fails:
                self.rep.fail("seq:" + "|".join(l[1:] for l in s), det, {"a.c": trace(s)[0], "run.sh": "cd $(dirname $0); ${1:-/repo/wcc} -E a.c; echo ---- reference; gcc -E -undef -nostdinc a.c\n"})
        self.rep.evals += len(good) + len(bad)
        self.rep.nontrivial += len(good) + len(bad)
        self.rep.traces = (self.rep.traces or 0) + len(good) + len(bad)


# suffixes that tell the states of a group apart
PROBES = [(), ("#elif 1",), ("#else",), ("#elif X",), ("#endif",), ("#define X 1", "#else")]


def transitions(acc):
    good, bad, n = [], [], 0
    for st, seq in acc.items():
        for l in LINES:
            n += 1
            new = step(st, l)
            if new is None:
                bad.append(seq + (l,))
                continue
            for p in PROBES:
                s = seq + (l,) + p
                w = trace(s)
                if w[1] is None: bad.append(s) if p == ("#else",) else None
                else: good.append(tuple(closed(s)))
        if st[0]: bad.append(seq)      # unterminated
    return good, bad, n


def sequences(depth):
    good = []

    def rec(seq, st):
        if len(seq) == depth:
            good.append(tuple(closed(seq)))
            return
        for l in LINES:
            n = step(st, l)
            if n is None: continue
            if l.startswith("#define") and seq and seq[-1].startswith(("#define", "#undef")): continue
            if l.startswith("#undef") and seq and seq[-1].startswith(("#define", "#undef")): continue
            rec(seq + (l,), n)
    rec((), INIT)
    return good


# ---------------------------------------------------------------- lines that look like directives, or look like text
LOOK = ["x #else", "x #endif", "( #else )", '"#else"', "'#'", "/* #else */", "/*\n#else\n*/", "/*\n#endif\n*/ t", "// #else", "// \\\n#else", "/* */ #if 0", "/* a\n b */ #if 0", "#/**/if 0", "# if 0", "\t#\tif 0", "#i\\\nf 0", "\\\n#if 0", "#if \\\n0", "#if /* */ 0 /* */", "#if 0 // c", "#if 0 /* a\n b */",
        "#", "# ", "# // c", "#/* */", "# /* a\nb */", "don't", "it's \"", "#unknown", "#unknown #else", "#elsewhere", "#else_", "#iff", "#ifdefine", "#endiff", "#define HASH #", "HASH else", "#pragma else", "#pragma", "#error no", "#include \"nonexistent\"", "#include <nonexistent", "#include", "#define", "#define 1", "#undef", "#undef 1", "#line", "#line x",
        "#warning w", "#if", "#ifdef", "#ifndef", "#if (", "#if 1 +", "#if 1/0", "#if \"a\"", "#ifdef 1", "#ifdef (X)", "#if 0 junk", "#12 \"f\"", "a ## b", "a # b", "##else", "## else", "#else#", "@#else", "$", "`", "\\", "#if 'a", "#define F(x) # y", "#define A(x", "#assert", "#if 08", "#if 1.0", "#if 1u == 1", "#if defined", "#if defined(", "#if defined X", "#if defined(X)", "#if !defined X || X", "#if X(1)", "#if 1 ? 2", "/* unterminated", "\"\\", "'\\''", "#include MACRO"]


def look():
    # each line in a taken group, in the group before/after it, in a nested skipped group
    ends = lambda l: ["#endif"] if re.match(r"(\\\n)?\s*(/\*.*?\*/)?\s*#\s*(\\\n)?(/\*\*/)?\s*i(\\\n)?f", l, re.S) else []
    for l in LOOK:
        e = "".join(x + "\n" for x in ends(l))
        unterminated = l in ("/* unterminated",)
        solo = True
        yield Case(f"look:taken:{l}", [], [f"#if 1\na\n{l}\nb\n{e}c\n#else\nd\n#endif\nf"], solo=solo)
        yield Case(f"look:skipped:{l}", [], [f"#if 0\na\n{l}\nb\n{e}c\n#else\nd\n#endif\nf"], solo=solo)
        yield Case(f"look:else:{l}", [], [f"#if 1\nd\n#else\na\n{l}\nb\n{e}c\n#endif\nf"], solo=solo)
        yield Case(f"look:elif:{l}", [], [f"#if 0\nd\n#elif 0\na\n{l}\nb\n{e}c\n#elif 1\ng\n#endif\nf"], solo=solo)
        yield Case(f"look:nested:{l}", [], [f"#if 0\n#if 1\na\n{l}\nb\n{e}#else\nc\n#endif\n#else\nd\n#endif\nf"], solo=solo)
        yield Case(f"look:nested2:{l}", [], [f"#ifdef X\n#ifndef X\n{l}\n{e}#elif 1\nc\n#else\n{l}\n{e}#endif\n{l}\n{e}#else\nd\n#endif\nf"], solo=solo)
        if not e and l[0] not in "/\"'\\d" and "\n" not in l: yield Case(f"look:first:{l}", [], [f"#if 0\n{l}\n#endif\nf"], solo=solo)


# what can follow the name of a directive
def tails():
    for d, ts in {"#else": ["", " junk", "/* */", " // c", " \\\n", "#", "1"], "#endif": ["", " junk", "/* */", " // X", " \\\n", "#", "1"], "#elif": ["", " 1", " 0", " X", " 1 junk", " (", " 1/0", " defined X", " defined(X", "1", "(1)", "!0", "/**/1", " EMPTY", " F(1)", " F", " 1.0", " \"a\""]}.items():
        for t in ts:
            for first in ("#if 1", "#if 0"):
                end = "\n#endif" if d != "#endif" else ""
                yield Case(f"tail:{first}:{d}{t}", ["#define EMPTY", "#define F(x) x"], [f"{first}\na\n{d}{t}\nb{end}\nc"], solo=True)
                yield Case(f"tail2:{first}:{d}{t}", ["#define EMPTY", "#define F(x) x"], [f"#if 0\n{first}\na\n{d}{t}\nb{end}\nc\n#endif\nz"], solo=True)
    done = set()
    for d in ("#if", "#ifdef", "#ifndef"):
        for t in ("", " X", " Y", " 1", " 0", " X junk", " (X)", "(X)", "(1)", "1", "/**/X", "/**/1", " \\\nX", " \"a\"", " !X", " X // c", " define", " int", " defined", " EMPTY", " F", " F(0)", " F (1)", " F(\n1)", " __LINE__", " __FILE__", " __STDC__", " -1", " 'a'", " +", " ()", " 1 1", " 1,1", " 1=1", " X=1", " 1++", " sizeof(int)", " (int)1", " &X", " *X", " 1?2:3", " 0?2:0", " 1:2",
                  " defined", " defined X", " defined(X)", " defined ( X )", " defined(X", " defined()", " defined 1", " defined(1)", " defined X X", " defined X && defined Y", " !defined X", " defined define", " defined(line)", " defined int", " defined __FILE__", " defined __LINE__", " defined defined", " defined(EMPTY)", " defined F", " defined F(1)", " CAT(X,Y)", " CAT(1,2) == 12", " CAT(a,b) == 0", " CAT(0x,1f) == 31", " int == 0", " if == 0", " X == X", " X == 1", " Y == 0", " Y", " F(F)(1)",
                  " 0x", " 08", " 1L", " 1ul", " 1lu", " 1lul", " 1x", " 1.5", " .5", " 1e3", " 'ab'", " L'a'", " ''", " '\\0'", " '\\377' < 0", " '\\xff' < 0", " L'\\xff' > 0", " \"a\" == \"a\"", " 18446744073709551615", " 18446744073709551616", " 9223372036854775807", " 0xffffffffffffffff < 0", " -1 > 0u", " -1 > 0"):
            if (d, t) in done: continue
            done.add((d, t))
            yield Case(f"head:{d}{t}", ["#define EMPTY", "#define F(x) x", "#define CAT(a,b) a##b", "#define X 1"], [f"{d}{t}\na\n#else\nb\n#endif\nc"], solo=True)


# ---------------------------------------------------------------- expressions
ATOMS = ["0", "1", "2", "-1", "63", "0x7fffffffffffffff", "(-0x7fffffffffffffff-1)", "0u", "1u", "0xffffffffffffffffu", "X", "UNDEF", "'a'"]
SMALL = ["0", "1", "-1", "3", "2u", "0x7fffffffffffffff", "0x8000000000000000u"]
BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
UN = ["-", "+", "~", "!", "!!", "-~"]


def observe(e):
    out = [f"#if {e}\nnz\n#else\nz\n#endif", f"#if ({e}) < 0\nneg\n#endif", f"#if (0 ? ({e}) : 0) - 1 < 0\nsigned\n#endif"]
    for b in (1, 2, 4, 32, 64, 1 << 31, 1 << 32, 1 << 62, 1 << 63):
        out.append(f"#if ({e}) & {b}{'u' if b == 1 << 63 else ''}\nb{b}\n#endif")
    return "\n".join(out)


def exprs():
    def ok(e): return True
    es = list(ATOMS)
    es += [u + " " + a for u in UN for a in ATOMS]
    es += [f"{a} {o} {b}" for a in ATOMS for o in BIN for b in ATOMS if not (o in ("<<", ">>") and b not in ("0", "1", "2", "63", "0u", "1u", "X", "UNDEF"))]
    sm = SMALL if THOROUGH else ["0", "-1", "3", "2u"]
    sh = lambda o, b: o in ("<<", ">>") and b not in ("0", "1", "3", "2u")
    for a, b, c in itertools.product(sm, repeat=3):
        for o, p in itertools.product(BIN, repeat=2):
            if sh(o, b) or sh(p, c) or (o in ("<<", ">>") and p in ("*", "/", "%", "-", "+") and (p != "+" or c == "-1")): continue
            es.append(f"{a} {o} {b} {p} {c}")
    for a, b in itertools.product(sm, repeat=2):
        for o in BIN:
            if sh(o, b): continue
            for u in ("-", "~", "!"):
                es.append(f"{u} {a} {o} {b}")
                es.append(f"{u} ({a} {o} {b})")
                es.append(f"{a} {o} {u} {b}" if o not in ("<<", ">>") else f"{a} {o} {b}")
            for c in sm:
                es.append(f"{a} {o} {b} ? {c} : 5"); es.append(f"{c} ? {a} {o} {b} : 7u"); es.append(f"{c} ? {a} : {c} {o if not sh(o, b) else '+'} {b}")
        for c in sm:
            es.append(f"{a} ? {b} : {c}")
            for d in sm[:3]: es += [f"{a} ? {b} : {c} ? {d} : 4", f"{a} ? {b} ? {c} : {d} : 4", f"{a} && {b} || {c} && {d}", f"({a} || {b}) && ({c} || {d})"]
    es += ["0 && 1/0", "1 || 1/0", "0 ? 1/0 : 2", "1 ? 2 : 1/0", "0 && (1 ? 1/0 : 1%0)", "1 || (0 || 1%0)", "0 && 1/0 && 1/0", "1 && 1/0", "0 || 1/0", "1/0", "1%0", "0 ? 1 : 1/0", "1 ? 1/0 : 1", "1/0u", "0 && 1/0 || 1", "(0 && 1/0) ? 1/0 : 3", "defined X && X", "defined UNDEF && UNDEF(1)", "defined(X) + defined UNDEF + defined X", "X + X * X", "-X - -X", "!X == 0"]
    seen = set()
    for e in es:
        if e in seen: continue
        seen.add(e)
        yield Case(f"expr:{e}", ["#define X 5"], [observe(e)])


def includes(rep):
    """conditionals and included files: groups do not extend over files"""
    files = {"plain.h": "in\n", "open.h": "#if 1\nin\n", "open0.h": "#if 0\nin\n", "close.h": "in\n#endif\n", "else.h": "in\n#else\nin2\n", "elif.h": "#elif 1\n", "bal.h": "#ifndef G\n#define G\nin\n#else\nagain\n#endif\n", "def.h": "#define X 7\n", "undef.h": "#undef X\n", "nest.h": "#if 0\n#include \"nope.h\"\n#else\n#include \"bal.h\"\n#endif\n", "nonl.h": "#if 1\nin\n#endif", "skipq.h": "#if 0\ndon't\n#endif\n", "self.h": "#ifndef D\n#define D 1\n#include \"self.h\"\nd1\n#elif D == 1\n#undef D\n#define D 2\n#include \"self.h\"\nd2\n#else\nd3\n#endif\n", "loop.h": "#include \"loop.h\"\n"}
    for a in range(2, 13): files[f"deep{a}.h"] = f"#include \"deep{a - 1}.h\"\ndd{a}\n"
    files["deep1.h"] = "deepest\n"
    cs = []
    for f in files:
        if f == "loop.h":
            cs.append(Case("inc:loop", [], ['#include "loop.h"'], solo=True))
            continue
        for c in ("1", "0"):
            cs.append(Case(f"inc:{f}:{c}", ["#define X 1"], [f"#if {c}\na\n#include \"{f}\"\nb X\n#else\nc\n#endif\nd X"], ["#undef G", "#undef D"], solo=True))
            cs.append(Case(f"inc2:{f}:{c}", ["#define X 1"], [f"#if {c}\n#else\n#include \"{f}\"\n#include \"{f}\"\nb X\n#endif\nd X"], ["#undef G", "#undef D"], solo=True))
    p = PP(rep, files=files)
    p.go(cs)
    return len(cs)


def main():
    rep = Report("C20", LEVEL, "model states up to a nesting bound, all transitions with distinguishing suffixes and all sequences up to a depth replayed; enumerated lookalike lines, expressions, included files", ["reference: the model, gcc -E, clang -E"])
    depth = 4 if THOROUGH else 3
    acc = explore(depth)
    good, bad, n = transitions(acc)
    rep.states, rep.transitions = len(acc), n
    if not THOROUGH: bad = sorted(set(bad), key=lambda s: (len(s), s))[:1200]
    seqs = sequences(5 if THOROUGH else 4)
    Replay(rep).go(good + seqs, bad)
    p = PP(rep)
    p.go(list(look()) + list(tails()) + list(exprs()), batch=60)
    p.rep.extra["included"] = includes(rep)
    rep.exhaustive = True
    return rep.finish()
