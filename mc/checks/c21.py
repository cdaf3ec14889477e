"""C21: line and file positions. Sources are all sequences of layout items up to a length; a model gives the presumed file and line of every probe."""
import bisect, itertools, os, re
from .. import core
from ..core import Report, THOROUGH, run
from ..pp import tokens

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of sequences of layout items (splices, comments, multi-line macro calls, skipped groups, includes, #line) up to a length; the presumed position of every probe is known by construction (and confirmed by gcc -E) and must be what __LINE__/__FILE__, the -E line markers, the .loc directives and the diagnostics of wcc name"
NOTE = "Bounds: all pairs of items, all triples of a reduced set (all triples in the thorough tier). A macro invocation or statement that spans lines may be located at any of its lines; everything on one line must be exact."

FILES = {
    "q.h": "\nq();\n\n",
    "p.h": "PROBE\n",
    "nonl.h": "\n\nPROBE",
    "cm.h": "/*\n*/ PROBE /*\n*/\n",
    "l.h": "\n#line 70 \"gen.y\"\nPROBE\n\n",
    "nest.h": "\n#include \"p.h\"\n\nPROBE\n",
    "if.h": "#if 0\n\n#else\nPROBE\n#endif\n\n",
    "empty.h": "",
    "sp.h": "q(\\\n);\\\n\nPROBE\n",
}


class Src:
    """builds a source text and records the presumed position of every probe"""

    def __init__(self):
        self.text, self.phys, self.off, self.file, self.n, self.pos, self.inc, self.uses = "", 1, 0, "a.c", 0, {}, [], set()

    def add(self, s):
        self.text += s
        self.phys += s.count("\n")

    def line(self): return self.phys + self.off

    def probe(self, pre="", post="\n", ln="__LINE__", fn="__FILE__"):
        self.add(pre)
        self.pos[self.n] = (self.file, self.line())
        self.add(f"p{self.n}({ln}, {fn});" + post)
        self.n += 1

    def include(self, name, how='"%s"'):
        self.add("#include " + how % name + "\n")
        self.enter(name)

    def enter(self, name):
        # lay out the included file: give every PROBE its number
        f = FILES[name]
        uid = f"{len(self.inc)}_{name}"
        idx = len(self.inc)
        self.inc.append(None)
        out, phys, off, file = "", 1, 0, name
        for l in f.splitlines(True):
            m = re.match(r'#line (\d+) "(.*)"', l)
            if m: off, file = int(m[1]) - phys - 1, m[2]
            m = re.match(r'#include "(.*)"', l)
            if m: self.enter(m[1])
            if "PROBE" in l:
                self.pos[self.n] = (file if file != name else uid, phys + off)
                l = l.replace("PROBE", f"p{self.n}(__LINE__, __FILE__);")
                self.n += 1
            out += l
            phys += l.count("\n")
        self.inc[idx] = (name, uid, out)

    def finish(self):
        """text and files, every inclusion under a file name of its own"""
        files, text = {}, self.text
        # names in order of inclusion
        parts = {"a.c": text}
        order = list(self.inc)
        files = {}

        k = 0

        def sub(t):
            nonlocal k

            def r(m):
                nonlocal k
                name, uid, out = order[k]
                k += 1
                files[uid] = sub(out)
                return m[0].replace(name, uid)
            return re.sub(r'#(?:include|define INC) "([^"]*)"', r, t)
        return sub(text), files


def simple(s):
    def f(b): b.add(s)
    return f


def lineto(n, name=None, form="#line"):
    def f(b):
        b.add(f"{form} {n}" + (f' "{name}"' if name else "") + "\n")
        b.off = n - b.phys
        if name: b.file = name
    return f


def line_macro(b):
    b.add("#define LN1 400\n#define FN1 \"mac.c\"\n#line LN1 FN1\n")
    b.off, b.file = 400 - b.phys, "mac.c"


def line_same(b):
    b.add("#line __LINE__\n")
    b.off -= 1      # the line after gets the number of the directive


def check_line(b):
    b.add(f"#if __LINE__ == {b.line()}\n#else\n#error wrong\n#endif\n")


def inc(name, how='"%s"'): return lambda b: b.include(name, how)


def inc_macro(b):
    b.add('#undef INC\n#define INC "p.h"\n#include INC\n')
    b.enter("p.h")


ITEMS = {
    "blank": simple("\n"), "blank7": simple("\n" * 7), "blank8": simple("\n" * 8), "blank9": simple("\n" * 9), "blank30": simple("\n" * 30),
    "stmt": simple("q();\n"), "splice": simple("q(\\\n);\n"), "splice2": simple("q\\\n(\\\n\\\n);\n"), "splicew": simple("\\\n\n"),
    "comment": simple("/* a\n b\n */\n"), "comment1": lambda b: b.probe("/* a\n */ "), "comment2": lambda b: b.probe("", " /* a\n\n*/\n"), "lcomment": simple("// c \\\n c2\nq();\n"), "comments": simple("q(); // c\n/* */ /*\n*/ // d\n"),
    "mcall": simple("M(\n q\n )();\n"), "mcall1": lambda b: b.probe("M(\n q)(); "), "mcall2": simple("M2(q,\n\n ())\n;\n"), "mcallc": simple("M(/*\n*/q)();\n"), "mnl": simple("M\n(q)();\n"), "mdrop": simple("D(\n\n)\n"), "mobj": lambda b: b.probe("Q; "), "mempty": lambda b: b.probe("E E\nE "),
    "mline": lambda b: (b.add("r("), b.add("LN"), b.add(");\n")), "marg": lambda b: b.probe("M(q)(); "),
    "pln": lambda b: b.probe(ln="LN", fn="FN"), "pln2": lambda b: b.probe(ln="M(LN)", fn="M(FN)"), "pln3": lambda b: b.probe(ln="LN2 E", fn="FN"),
    "if0": simple("#if 0\n junk '\n\n#endif\n"), "if1": simple("#if 1\nq();\n#else\n junk\n#endif\n"), "ifc": simple("#if 0\n/*\n#endif\n*/\n#endif\n"), "ifprobe": lambda b: (b.add("#if 0\n#elif 1 /*\n*/\n"), b.probe(), b.add("#else\n\n#endif\n")), "ifsplice": simple("#if \\\n1\nq();\n#\\\nendif\n"), "if30": simple("#if 0\n" + "\n" * 30 + "#endif\n"),
    "define": simple("#define X1 a \\\n b\n#undef X1\n"), "pragma": simple("#pragma x\n#\n"), "string": simple('s("a\\\nb");\n'), "check": check_line,
    "line": lineto(100), "linef": lineto(200, "foo.c"), "linefd": lineto(300, "dir/x.y"), "lineback": lineto(1), "marker": lineto(500, "bar.c", "#"), "linemac": line_macro, "linesame": line_same,
    "inc": inc("q.h"), "incp": inc("p.h"), "incnl": inc("nonl.h"), "inccm": inc("cm.h"), "incl": inc("l.h"), "incnest": inc("nest.h"), "incif": inc("if.h"), "incempty": inc("empty.h"), "incsp": inc("sp.h"), "incsys": inc("p.h", '"%s" /*\n*/'), "incmac": inc_macro,
}
REDUCED = ["blank", "blank9", "splice", "comment", "comment1", "mcall", "mcall1", "mnl", "if0", "ifprobe", "string", "check", "linef", "line", "incnl", "incl", "incnest", "lcomment", "mdrop"]

HEAD = "#define M(x) x\n#define M2(x,y) x y\n#define D(x)\n#define Q q()\n#define E\n#define LN __LINE__\n#define FN M(__FILE__)\n#define LN2 E LN\n"
NP = 24


def source(seq):
    b = Src()
    b.add(HEAD)
    b.add("void q(void), r(int), s(char *), q2(void);\n")
    b.add("void " + ", ".join(f"p{i}(int, char *)" for i in range(NP)) + ";\n")
    b.add("void f(void) {\n")
    for k in seq:
        ITEMS[k](b)
        b.probe()
    return b


def mapping(out):
    """probe -> (file, line) by the line markers of preprocessed text, and probe -> (__FILE__, __LINE__)"""
    file, line, where, vals, at, text = None, 0, {}, {}, [], ""
    for l in out.splitlines():
        m = re.match(r'#\s*(?:line\s+)?(\d+)\s+"((?:[^"\\]|\\.)*)"', l)
        if m:
            line, file = int(m[1]), m[2]
            continue
        at.append((len(text), file, line))
        text += l + "\n"
        line += 1
    starts = [a[0] for a in at]
    for m in re.finditer(r'\bp(\d+)\s*\(\s*(\d+)\s*,\s*"([^"]*)"\s*\)', text):
        _, f, n = at[bisect.bisect_right(starts, m.start()) - 1]
        where[int(m[1])] = (f, n)
        vals[int(m[1])] = (m[3], int(m[2]))
    return where, vals


def locs(asm):
    """probe -> (file, line) by the .loc directive in force at its call"""
    files, cur, where = {}, None, {}
    for l in asm.splitlines():
        m = re.match(r'\s*\.file\s+(\d+)\s+"(.*)"', l)
        if m: files[m[1]] = m[2]
        m = re.match(r"\s*\.loc\s+(\d+)\s+(\d+)", l)
        if m: cur = (files.get(m[1]), int(m[2]))
        m = re.match(r"\s*callq?\s+p(\d+)\b", l)
        if m: where[int(m[1])] = cur
    return where


DIAGS = {"cpp": ("#error x\n", 0), "unknown": ("#foo\n", 0), "parse": ("undeclared_x = 1;\n", 0), "syntax": ("q() q();\n", 0), "args": ("M2(1);\n", 0), "warn": ("#warning w\n", 0)}


class Check:
    def __init__(self, rep):
        self.rep = rep
        self.wcc = os.path.join(core.build("plain"), "wcc")

    def one(self, seq):
        b = source(seq)
        text, files = b.finish()
        text += "}\n"
        d = core.subdir("c21")
        try:
            for n, t in files.items(): core.write(os.path.join(d, n), t)
            core.write(os.path.join(d, "a.c"), text)
            fails = []
            g = run(["gcc", "-E", "-w", "-nostdinc", "a.c"], cwd=d, timeout=30)
            gw, gv = mapping(g.out)
            want = b.pos
            if g.rc or gv != want: return seq, [("model", f"gcc {g.rc} {gv} {gw} model {want} {g.err[-300:]}")], text, files
            e = run([self.wcc, "-E", "a.c"], cwd=d, timeout=20)
            if e.rc: return seq, [("E", f"exit status {e.rc} {e.err[-200:]}")], text, files
            w, v = mapping(e.out)
            for k in want:
                if v.get(k) != want[k]: fails.append((f"value:p{k}", f"__FILE__, __LINE__ are {v.get(k)}, expected {want[k]}"))
                if w.get(k) != want[k]: fails.append((f"marker:p{k}", f"the line markers of -E say {w.get(k)}, expected {want[k]}"))
            s = run([self.wcc, "-g", "-S", "a.c", "-o", "-"], cwd=d, timeout=20)
            if s.rc: fails.append(("S", f"exit status {s.rc} {s.err[-200:]}"))
            else:
                l = locs(s.out)
                for k in want:
                    if l.get(k) != want[k]: fails.append((f"loc:p{k}", f".loc says {l.get(k)}, expected {want[k]}"))
            return seq, fails, text, files
        finally:
            core.rmtree(d)

    def diag(self, job):
        seq, kind = job
        b = source(seq)
        stmt, _ = DIAGS[kind]
        want = (b.file, b.line())
        b.add(stmt)
        text, files = b.finish()
        text += "\n\n}\n"
        d = core.subdir("c21d")
        try:
            for n, t in files.items(): core.write(os.path.join(d, n), t)
            core.write(os.path.join(d, "a.c"), text)
            r = run([self.wcc, "-S", "a.c", "-o", "-"], cwd=d, timeout=20)
            m = re.search(r"(?m)^(\S+):(\d+): (?:error|warning): ", r.err)
            got = (m[1], int(m[2])) if m else None
            fails = [] if got == want and (r.rc == 1 or kind == "warn") else [("diag:" + kind, f"diagnostic at {got}, expected {want}; exit status {r.rc} {r.err[-200:]}")]
            return seq, fails, text, files
        finally:
            core.rmtree(d)

    def go(self):
        seqs = [(k,) for k in ITEMS] + list(itertools.product(ITEMS, repeat=2))
        seqs += list(itertools.product(ITEMS if THOROUGH else REDUCED, repeat=3)) if THOROUGH else list(itertools.product(REDUCED[:13], repeat=3))
        for seq, fails, text, files in core.pmap(self.one, seqs, chunksize=16): self.report(seq, fails, text, files, len(fails) or 1)
        self.rep.evals += sum(3 * (len(s) + 1) for s in seqs)
        self.rep.nontrivial += len(seqs)
        jobs = [(s, k) for s in [(k,) for k in ITEMS] + (list(itertools.product(ITEMS, repeat=2)) if THOROUGH else [(a, c) for a in ITEMS for c in REDUCED]) for k in DIAGS]
        for seq, fails, text, files in core.pmap(self.diag, jobs, chunksize=16): self.report(seq, fails, text, files, 1)
        self.rep.evals += len(jobs)
        self.rep.nontrivial += len(jobs)

    def report(self, seq, fails, text, files, n):
        for k, det in fails:
            if k == "model": raise core.CheckError(f"{seq}: {det}")
            self.rep.fail(f"{k.split(':')[0]}:{'+'.join(seq)}:{k.partition(':')[2]}", det, {"a.c": text, **files, "run.sh": "cd $(dirname $0); ${1:-/repo/wcc} -E a.c; ${1:-/repo/wcc} -g -S a.c -o - | grep 'loc\\|file\\|call'\n"})


# ---------------------------------------------------------------- the position of diagnostics of every kind
STMTS = ["undeclared = 1;", "x = undeclared;", "x = st;", "p = x + st;", "*x = 1;", "x();", "f(1, 2);", "f();", "5 = x;", "&5;", "st.nope = 1;", "st = 1;", "return st;", "break;", "continue;", "case 1:;", "default:;", "goto nolabel;", "int x2; int x2;", "void v;", "struct undef u;", "int a[-1];", "x = (struct S) x;", "p + p;", "p * 2;", "~1.0;", "!st;", "if (st) ;", "while (st) ;", "switch (1.0) ;", "x ? st : 1;", "x->a;", "p.a;", "sizeof(struct undef);", "x = ;", "x = 1 +;", "(x;", "x[1];", "f(st);", "++5;", "5++;", "c = 1;", "x %= 1.0;", "int y = st;", "int z[2] = {1,2,3};", "char q[2] = \"abcd\";", "typedef int x3; x3 x3x = st;", "x = 'ab", "x = \"abc", "x = 08;", "x = 1x;", "@;", "x = 1 ? 2;", "enum { A, A };", "struct T { int a; int a; } t;", "static int k = x;", "extern int ee = 1;", "do x++; (x);", "for (x; x) ;", "else x++;", "x = {1};", "return;", "a: a: ;"]


def statements(rep):
    """every erroneous statement, alone on its line between blank lines, at every depth of nesting: the diagnostic names that line"""
    wcc = os.path.join(core.build("plain"), "wcc")
    pre = "struct S { int a; } st; int x, *p; const int c = 1; int f(int a) {\n"
    shapes = {"plain": ("\n\nx++;\n", "\n\nx--;\n}\n"), "last": ("\n", "\n\n\n}\n"), "block": ("{\n\n", "\n\n}\n\n}\n"), "file": ("\n# 40 \"g.y\"\nx++;\n", "\n\nx--;\n}\n"), "comment": ("/*\n*/ x++; ", " /*\n\n*/\n}\n"), "eof": ("\nx++;\n", "")}

    def one(job):
        st, sh = job
        a, z = shapes[sh]
        text = pre + a + st + z
        file, line = "a.c", (pre + a).count("\n") + 1
        if sh == "file": file, line = "g.y", 41
        d = core.subdir("c21s")
        core.write(os.path.join(d, "a.c"), text)
        g = run(["gcc", "-std=gnu89", "-fsyntax-only", "-fmax-errors=1", "-w", "a.c"], cwd=d, timeout=20)
        r = run([wcc, "-S", "a.c", "-o", "-"], cwd=d, timeout=20)
        core.rmtree(d)
        m = re.search(r"(?m)^([^\s:]+):(\d+): (?:error|warning): ", r.err)
        got = (m[1], int(m[2])) if m else None
        gm = re.search(r"(?m)^([^\s:]+):(\d+):\d+: error: ", g.err)
        ref = (gm[1], int(gm[2])) if gm else None
        return st, sh, got, (file, line), ref, text, r
    jobs = [(s, sh) for s in STMTS for sh in shapes]
    for st, sh, got, want, ref, text, r in core.pmap(one, jobs, chunksize=4):
        if ref != want: continue        # gcc doesn't attribute it to this line
        rep.evals += 1
        rep.nontrivial += 1
        if got is None and r.rc == 0: continue      # a missing diagnostic is C18's
        if sh == "eof" and got and got[1] > want[1] and "Unexpected token 1" in r.err: continue     # the end of the file is diagnosed first
        if got != want: rep.fail(f"stmt:{sh}:{st}", f"diagnostic at {got}, expected {want}: {r.err[-200:]}", {"a.c": text, "run.sh": "cd $(dirname $0); ${1:-/repo/wcc} -S a.c -o -\n"})


def main():
    rep = Report("C21", LEVEL, "sequences of layout items up to a length x probes: values of __LINE__ and __FILE__, line markers, .loc directives, diagnostics", ["gcc -E agrees with the model on every source"])
    Check(rep).go()
    statements(rep)
    rep.exhaustive = True
    return rep.finish()
