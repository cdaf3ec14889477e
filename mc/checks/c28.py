"""C28: compiling what -E prints is compiling the program. Every program of the enumerated families is compiled directly and through -E (twice),
and the assembly (or the diagnostics), the line information and the printed tokens are compared."""
import glob, itertools, os, re
from .. import core, corpus, pp
from ..core import Report, read, run, write
from . import c07, c27

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive program enumeration (token sequences up to a length with every token coming from a macro of its own; layouts of splices, comments, blank lines, line directives, inclusions; the families of C01-C22; the system's headers), with two routes through the real compiler compared: direct, and through one and two rounds of -E"
NOTE = "The assembly is compared in whole, with .loc lines under -g, apart from the directory-dependent .file names. For rejected programs the located message is compared."

TOKS = {"x": "x", "p": "p", "one": "1", "half": ".5", "hex": "0xe", "num": "1.", "plus": "+", "minus": "-", "inc": "++", "dec": "--", "amp": "&", "star": "*", "tilde": "~", "bang": "!", "lp": "(", "rp": ")", "lt": "<", "gt": ">", "eq": "=", "mod": "%", "div": "/", "or": "|", "q": "?", "co": ":", "comma": ",", "dot": ".", "arrow": "->", "m": "m", "s": "s", "ps": "ps", "str": '"a"', "chr": "'b'", "lb": "[", "rb": "]", "L": "L", "e": "e1", "cast": "(char)"}
DEFS = "".join(f"#define T_{k} {v}\n" for k, v in TOKS.items())
PROL = DEFS + "struct s { int m; int L; int e1; } s, *ps; int x, e1, L, *p, v; void u(char *);\n"
FULLSET = ["x", "p", "one", "half", "hex", "plus", "minus", "inc", "dec", "amp", "star", "tilde", "bang", "lp", "rp", "lt", "eq", "div", "dot", "arrow", "m", "s", "ps", "str", "L", "e", "q", "co", "comma"]
CORE = ["x", "one", "half", "plus", "minus", "inc", "dec", "amp", "star", "lp", "rp", "eq", "gt", "p"]


def plausible(seq):
    """prunes what cannot be an expression: operand and operator positions, parentheses"""
    depth, want, q = 0, True, 0      # want: an operand
    prev = None
    for t in seq:
        if want:
            if t in ("x", "p", "one", "half", "hex", "num", "s", "ps", "str", "chr", "L", "e"): want = False
            elif t == "lp": depth += 1
            elif t in ("plus", "minus", "inc", "dec", "amp", "star", "tilde", "bang", "cast"): pass
            else: return False
        else:
            if prev in ("dot", "arrow"): return False
            if t in ("inc", "dec"): pass
            elif t == "rp":
                depth -= 1
                if depth < 0: return False
            elif t in ("dot", "arrow"): prev = t; want = None; continue
            elif t in ("plus", "minus", "star", "amp", "lt", "gt", "eq", "mod", "div", "or", "comma"): want = True
            elif t == "q": q += 1; want = True
            elif t == "co":
                q -= 1
                if q < 0: return False
                want = True
            else: return False
        if want is None: return False
        prev = t
    return want is False and depth == 0 and q == 0


def gen(toks, n):
    """token sequences that may be expressions, of length n; members after . and ->"""
    out = []

    def go(seq, want, depth, q):
        if len(seq) == n:
            if not want and depth == 0 and q == 0: out.append(tuple(seq))
            return
        for t in toks:
            w, dd, qq = want, depth, q
            if want:
                if t in ("x", "p", "one", "half", "hex", "num", "s", "ps", "str", "chr", "L", "e"): w = False
                elif t == "lp": dd += 1
                elif t not in ("plus", "minus", "inc", "dec", "amp", "star", "tilde", "bang", "cast"): continue
            elif t in ("dot", "arrow"):
                if len(seq) + 2 > n: continue
                for m in ("m", "L", "e"):
                    seq.extend((t, m)); go(seq, False, dd, qq); del seq[-2:]
                continue
            elif t in ("inc", "dec"): pass
            elif t == "rp":
                if not depth: continue
                dd -= 1
            elif t == "q": qq += 1; w = True
            elif t == "co":
                if not q: continue
                qq -= 1; w = True
            elif t in ("plus", "minus", "star", "amp", "lt", "gt", "eq", "mod", "div", "or", "comma"): w = True
            else: continue
            seq.append(t); go(seq, w, dd, qq); seq.pop()
    go([], True, 0, 0)
    return out


def expressions(full):
    s = []
    for n in range(1, 5 if full else 4): s += gen(FULLSET, n)
    for n in ((5, 6) if full else (4, 5)): s += gen(CORE[:11] if n == 6 else CORE, n)
    return list(dict.fromkeys(s))


def valid(seqs):
    """those gcc compiles"""
    def one(b):
        d = core.subdir("v")
        t = PROL + "".join(f"void f{i}(void) {{ {' '.join(TOKS[t] for t in q)}; }}\n" for i, q in enumerate(b))
        f = write(os.path.join(d, "v.c"), t)
        r = run(["gcc", "-std=gnu89", "-w", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-fsyntax-only", f], timeout=120)
        k0 = PROL.count("\n") + 1
        bad = {int(m) - k0 for m in re.findall(r"v\.c:(\d+):\d+: (?:fatal )?error", r.err)}
        core.rmtree(d)
        return b, bad
    out = []
    for b, bad in core.pmap(one, corpus.chunks(seqs, 500)): out += [q for i, q in enumerate(b) if i not in bad]
    return sorted(out, key=lambda q: (len(q), q))


LAYOUT = {"blank": "\n", "blank9": "\n" * 9, "blank200": "\n" * 200, "comment": "/* c */", "comment3": "/* c\n\n*/", "linecomment": "// c\n", "splice": "\\\n", "line": "#line 50\n", "linef": "#line 7 \"other.c\"\n", "inc": "#include \"h.h\"\n", "inc2": "#include \"d/k.h\"\n", "def": "#define Z 3\n", "if0": "#if 0\nfoo \" bar\n#endif\n", "if1": "#if 1\n", "pragma": "#pragma once\n", "null": "#\n", "decl": "int q@ = __LINE__;\n", "file": "char *f@ = __FILE__;\n", "fun": "int g@(int a)\n{ return a\n + __LINE__; }\n", "mac": "#define F@(a, b) a + \\\n  b\nint h@ = F@(\n1,\n\n__LINE__\n);\nint i@ = __LINE__;\n", "tab": "\t\f\v ", "str": "char *s@ = \"a\\\"b\\\\\" /* x */ \"\\t'\";\nint c@ = '\"' + '\\'' + '\\\\';\n"}
HDR = {"h.h": "\n\nextern int hh;\n#ifndef H1\n#define H1 __LINE__\nint h1 = __LINE__;\n#endif\n", "d/k.h": "#include \"../h.h\"\n/*\n*/ extern int kk; struct k { int a; };\nextern struct k *kf(void);\n".replace("struct k { int a; };", "struct k;")}


def layouts(full):
    for n in (1, 2, 3) if full else (1, 2):
        for seq in itertools.product(LAYOUT, repeat=n):
            t = "".join(LAYOUT[k].replace("@", f"{i}") for i, k in enumerate(seq))
            if "if1" in seq:
                t += "\nint z1;\n" + "#endif\n" * seq.count("if1")
            t += ("" if t.endswith("\n") else " ") + "int last = __LINE__; char *lf = __FILE__;\nint main(void) { return last; }\n"
            yield corpus.Prog("layout:" + ",".join(seq), t, [], HDR)


def headers():
    out = []
    for h in sorted(glob.glob("/usr/include/*.h") + glob.glob("/usr/include/sys/*.h") + glob.glob(os.path.join(core.REPO, "include", "*.h"))):
        n = os.path.relpath(h, "/usr/include") if h.startswith("/usr") else os.path.basename(h)
        out.append(corpus.Prog(f"header:{n}", f"#include <{n}>\nint main(void) {{ return 0; }}\n", []))
    return out


def norm(s): return re.sub(r'(?m)^\s*\.file\b.*$', "", s)


class Check:
    def __init__(self, full):
        self.full = full
        self.wcc = os.path.join(core.build("plain"), "wcc")

    def cc(self, d, args): return run([self.wcc, *args], cwd=d, timeout=100, cpu=60)

    def one(self, p):
        """(failures, evaluations, hash of the assembly)"""
        d0 = core.subdir("x")
        bad = []
        try:
            d, d1, d2 = (os.path.join(d0, k) for k in ("0", "1", "2"))       # a directory for each route, so that the file has the same name
            for k in (d, d1, d2): os.mkdir(k)
            for f, t in p.files.items():
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                write(os.path.join(d, f), t)
            write(os.path.join(d, "a.c"), p.text)
            fl, g, skip = p.flags, [], False
            for f in fl:
                if skip: skip = False; continue
                if f in ("-D", "-I"): skip = True; continue
                if f != "--trigraphs" and not f.startswith(("-D", "-I")): g.append(f)
            hide = lambda s: re.sub(re.escape(d0) + r"/[012]", "DIR", s)
            asm = lambda k: hide(norm(read(os.path.join(k, "a.s"))))
            if p.key[:3] in ("C19", "C20"):
                # `#` that comes from a macro, and invalid pasting, have no meaning in a program
                r = run(["gcc", "-E", "-std=gnu89", "-w", "-undef", "-nostdinc", "a.c"], cwd=d)
                if r.rc or "#" in pp.tokens(r.out): return [], 0, None
            r0 = self.cc(d, [*fl, "-S", "a.c", "-o", "a.s"])
            e1 = self.cc(d, [*fl, "-E", "a.c", "-o", os.path.join("..", "1", "a.c")])
            if r0.rc < 0 or r0.timeout or e1.rc < 0: return [], 1, None        # C23's
            if e1.rc:
                if not r0.rc: bad.append("-E fails on a program that compiles: " + (e1.err + e1.out)[-200:])
                return bad, 1, None
            so = self.cc(d, [*fl, "-E", "a.c"])
            b = read(os.path.join(d1, "a.c"))
            if so.out != b: bad.append("-E prints something else than it writes to a file")
            r1 = self.cc(d1, [*g, "-S", "a.c", "-o", "a.s"])
            e2 = self.cc(d1, [*g, "-E", "a.c", "-o", os.path.join("..", "2", "a.c")])
            if e2.rc: bad.append("-E fails on its own output: " + (e2.err + e2.out)[-200:]); return bad, 3, None
            c = read(os.path.join(d2, "a.c"))
            tb, tc = pp.tokens(b), pp.tokens(c)
            if tb != tc:
                k = next((i for i in range(min(len(tb), len(tc))) if tb[i] != tc[i]), min(len(tb), len(tc)))
                bad.append(f"preprocessing the output again changes it: {' '.join(tb[max(0, k - 5):k + 5])} became {' '.join(tc[max(0, k - 5):k + 5])}")
            if r1.rc != r0.rc: bad.append(f"exit status {r0.rc} directly, {r1.rc} through -E: {(r0.err + r0.out)[-150:]} | {(r1.err + r1.out)[-150:]}")
            elif r0.rc:
                m0, m1 = (re.search(r"(?m)^[^\s:][^:\n]*:\d+: .*error: .*$", x.err + x.out) for x in (r0, r1))
                m0, m1 = (m and m.group() for m in (m0, m1))
                if m0 != m1: bad.append(f"the message changes: {m0} | {m1}")
            else:
                x, y = asm(d), asm(d1)
                if x != y:
                    la, lb = x.split("\n"), y.split("\n")
                    k = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
                    bad.append(f"the code differs: directly {la[k:k + 1]}, through -E {lb[k:k + 1]}")
            return bad, 4, None if r0.rc else hash(asm(d))
        finally:
            core.rmtree(d0)


def programs(full):
    out = list(layouts(full)) + headers()
    for n, every in {"c01": 76, "c02": 48, "c03": 31, "c04": 27, "c05": 28, "c06": 19, "c11": 17, "c12": 29, "c13": 17, "c14": 21, "c15": 24, "c16": 9, "c22": 2}.items():
        out += corpus.engine_programs(n, max(1, every // 12) if full else every)
    for n, every in {"c17": 80, "c18": 97, "c22": 2}.items(): out += corpus.verdict_programs(n, max(1, every // 8) if full else every)
    for n, every in {"c19": 9, "c20": 19}.items(): out += corpus.pp_programs(n, max(1, every // 8) if full else every, 1)
    fl = [[], ["-g"], ["-fPIC"], ["-g"]]
    for k, p in enumerate(out):
        if p.key[:3] not in ("C19", "C20"): p.flags = [*p.flags, *fl[k % 4]]
    for path, f in c27.sources(full):
        t = read(path)
        if os.path.getsize(path) < 60000 or full: out.append(corpus.Prog("source:" + os.path.relpath(path, core.REPO), t, [*f, "-I", os.path.dirname(path), "-I", os.path.join(core.REPO, "tests")]))
    return out


def main():
    full = core.THOROUGH
    rep = Report("C28", LEVEL, "program x {direct, -E once, -E twice}; non-trivial: distinct outputs of accepted programs", ["gcc's verdict on which token sequences are expressions"])
    ch = Check(full)
    seqs = expressions(full)
    ok = valid(seqs)
    rep.extra.update(token_sequences=len(seqs), token_sequences_valid=len(ok))
    progs = programs(full)
    # expressions: without blanks between the macro names, and with the tokens themselves next to a macro
    def text(b, how):
        fs = []
        for i, q in enumerate(b):
            if how == "macro": e = " ".join("T_" + t for t in q)
            elif how == "args": e = f"J{len(q)}(" + ",".join("T_" + t if t in ("lp", "rp", "comma") else TOKS[t] for t in q) + ")"
            else: e = "".join(("/**/" if k % 2 else " ") + ("T_" + t if k % 2 else TOKS[t]) for k, t in enumerate(q))
            fs.append(f"void f{i}(void) {{ {e}; }}\n")
        js = "".join(f"#define J{n}({','.join('abcdef'[:n])}) {' '.join('abcdef'[:n])}\n" for n in range(1, 7))
        return PROL + js + "".join(fs)
    for how in ("macro", "args", "mixed"):
        for n, b in enumerate(corpus.chunks(ok, 60)): progs.append(corpus.Prog(f"expr:{how}:{' '.join(TOKS[t] for t in b[0])}", text(b, how), []))
    for p in (progs[0], progs[len(progs) // 2], progs[-1]): rep.sample(p.key)
    progs.sort(key=lambda p: -len(p.text))
    for (p, (bad, n, h)) in core.pmap(lambda p: (p, ch.one(p)), progs, chunksize=2, stop=lambda: len(rep.fails) > int(os.environ.get("MC_MAXFAIL", "30"))):
        rep.evals += n
        if h is not None: rep.outcomes.add(h)
        if bad: rep.fail(" ".join([*[f for f in p.flags if f.startswith("-f") or f == "-g"], p.key]).replace("\n", "\\n"), "; ".join(bad), {"a.c": p.text, **{os.path.basename(f): t for f, t in p.files.items()}})
    rep.extra["programs"] = len(progs)
    return rep.finish()
