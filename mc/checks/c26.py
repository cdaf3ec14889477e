"""C26: the compiler's global state as a transition system whose transitions are translation units: every sequence up to a length over an alphabet of
units that touch every piece of that state; after each, the code of the last unit must be that of compiling it alone."""
import itertools, os, re
from .. import core
from ..core import Report, read, run, write

LEVEL = "model_checking"
TECHNIQUE = "explicit exploration of the compiler as a state machine: all sequences of translation units up to a length (2 over the whole alphabet and every option set, 3 over the units that touch the most state), in one process, with output, diagnostics and exit status compared with a fresh process's; plus breadth-first minimization of a reproducing sequence"
NOTE = "A state is what the process holds after a sequence of units; it is observed through the code of every unit that follows. Units are distinct files, so names, macros, types and literals of one must not show in another."

U = {
    "empty": "",
    "plain": "int x; int f(int a) { return a + x; }",
    "macro": "#define X 5\n#define F(a) a a\n#define typedef_t int\nint m1(void) { return X; }",
    "usemacro": "#ifdef X\nint m2(void) { return X; }\n#else\nint X;\n#endif\n#ifndef F\nint F;\n#endif\nint typedef_t;",
    "undef": "#undef __x86_64__\n#undef X\n#undef __STDC__\nint u1;",
    "predef": "#ifdef __x86_64__\nint p1 = 1;\n#endif\n#ifdef __STDC__\nint p2 = __STDC__;\n#endif\nchar *p3 = __FILE__; int p4 = __LINE__;",
    "typedef": "typedef int T; typedef struct { int a; } S; T t1; S s1; T t2(T a) { return a; }",
    "usetype": "int T = 3; int S(int T) { return T * (S)(4); } int t3(void) { return (T) + 1; }",
    "tags": "struct s { int a; }; union u { int a; long b; }; enum e { A, B, C }; struct s q1; int q2 = sizeof(union u) + C;",
    "tags2": "struct s { long b; char c; }; union u { char c; }; enum e { C = 7 }; int A = 4; struct s q3; int q4 = sizeof(union u) + C; int q5(void) { return sizeof(struct s) + A; }",
    "incomplete": "struct s; struct w *p; extern struct w ew; int un(struct s *a) { return a == 0; }",
    "static": "static int x = 3; static int f(int a) { static int y = 1; return a + x + y++; } int g(void) { return f(2); }",
    "static2": "static long x = 4; static long f(void) { static char y = 2; return x + y; } long g2(void) { return f(); }",
    "extern": "extern int x; extern int f(int); int h(void) { return f(x); }",
    "implicit": "int i1(void) { return printf(\"a\"); } int i2(void) { return f(1) + g(2); }",
    "strings": "char *s1 = \"abc\"; char *s2(void) { return \"def\"; } char s3[] = \"ghi\"; int *s4 = L\"jk\";",
    "strings2": "char *s5(void) { return \"abc\"; } char *s6 = \"xyz\";",
    "floats": "float f1(float a) { return a + 1.5f; } double f2(double a) { return a * 2.25 + 3.0; } long double f3(long double a) { return a / 3.5L; }",
    "floats2": "double f4(void) { return 9.75; } float f5(void) { return 1.5f; }",
    "ru4": "long double r1(unsigned long a) { return a; } double r2(unsigned long a) { return a; }",
    "ldu4": "unsigned long l1(long double a) { return a; } unsigned long l2(double a) { return a; }",
    "switch": "int w1(int a) { switch (a) { case 1: return 2; case 2: return 4; default: return 0; } } int w2(int a) { while (a) { if (a == 3) break; a--; } return a; }",
    "goto": "int g1(int a) { again: if (a++ < 5) goto again; goto out; a = 0; out: return a; } int g3(void) { goto out; out: return 1; }",
    "varargs": "#include <stdarg.h>\nint v1(int n, ...) { va_list ap; int r; va_start(ap, n); r = va_arg(ap, int); va_end(ap); return r; }",
    "struct": "struct big { int a[40]; }; struct big b1(struct big x) { struct big y; y = x; y.a[3] = 2; return y; } void b2(struct big *p) { struct big z = { 1 }; *p = z; }",
    "pressure": "int z(int, int, int, int, int, int, int, int); int z1(int a, int b, int c, int d, int e, int f) { int g = a * b, h = c * d, i = e * f, j = a + f, k = b + e, l = c + d; return z(a, b, c, d, e, f, g, h) + z(i, j, k, l, a, b, c, d) + a / b + c % d + (e << f) + g * h + i * j + k * l; }",
    "line": "#line 100 \"other.c\"\nint n1 = __LINE__; char *n2 = __FILE__; int n3(int a) {\n return a; }",
    "include": "#include \"h.h\"\nint in1 = HVAL; hint in2(hint a) { return a + 1; }",
    "include2": "#ifdef HVAL\nint HVALWASDEFINED;\n#endif\n#include \"h.h\"\n#include \"h.h\"\nint in3 = HVAL;",
    "cond": "#if defined(Y)\nint c1;\n#elif 1\nint c2;\n#else\nint c3;\n#endif\n#pragma pack\n#ident \"x\"" if False else "#if defined(Y)\nint c1;\n#elif 1\nint c2;\n#else\nint c3;\n#endif",
    "defY": "#define Y 1\n#if Y\nint c4;\n#endif",
    "warn": "int *wa(int *p) { p = 5; return p; } int wb(int a) { return &a; }",
    "init": "int ii[4] = {1, 2, 3}; struct { char c; double d; } iz = {'a', 1.5}; char ic[2][3] = {\"ab\", \"cd\"}; int *ip = &ii[2];",
    "bits": "struct { unsigned a : 3; int b : 5; } bf; int bg(void) { bf.a = 3; return bf.b; }",
    "comm": "int c[10]; extern int c[10]; char cc; double cd;",
    "fptr": "int (*fp)(int); int ff(int); int fg(int a) { fp = ff; return fp(a) + (*fp)(a); } extern int fx(void); int (*fy)(void) = fx;",
    "scope": "int sc(int a) { { int a = 2; { int a = 3; { struct s { int z; } a; a.z = 1; return a.z; } } } }",
    "trigraph": "char *th = \"a??!b\"; char ti[] = \"??=??/\\n\";",
    "tentative": "int x; int x; static int ty; static int ty; int *tz = &ty;",
    "longid": "int " + "v" * 200 + "1; int fn(void) { return " + "v" * 200 + "1; }",
    "builtin": "int bm(void) { char a[100]; memset(a, 0, 100); return memcmp(a, a, 3); } char memcpy1;",
    "selfmem": "void *memcpy(void *d, void *s, unsigned long n) { return d; } void *memset(void *d, int c, unsigned long n) { return d; } struct k { int a[30]; }; void km(struct k *a, struct k *b) { *a = *b; }",
    "many": "".join(f"int mf{i}(int a) {{ return a > {i} ? {i} : a && {i}; }} " for i in range(20)),
}
HEAD = "#ifndef H_H\n#define H_H\n#define HVAL 12\ntypedef int hint;\nextern hint hx;\n#endif\n"
FLAGS = {"": [], "-g": ["-g"], "-fPIC": ["-fPIC"], "-D": ["-DX=9", "-DHVAL2", "-D", "Y=0"], "tri": ["--trigraphs"], "opt": ["-fno-live-range-coalescing", "-fspill-furthest-liveness-end", "-fno-dont-spill-short-live-ranges", "-fno-optimize-arithmetic"]}
HEAVY = ["macro", "usemacro", "undef", "predef", "typedef", "usetype", "tags", "tags2", "static", "static2", "strings", "floats", "ru4", "ldu4", "switch", "struct", "line", "include2", "selfmem"]


def main():
    rep = Report("C26", LEVEL, "sequence of translation units x option set; each unit's output compared with its solo output", ["a fresh process starts in the initial state"])
    wcc = os.path.join(core.build("plain"), "wcc")

    def files(d, seq):
        write(os.path.join(d, "h.h"), HEAD)
        names = []
        for i, u in enumerate(seq):
            n = f"{u}_.c"
            while n in names: n = n[:-2] + "_.c"
            write(os.path.join(d, n), U[u] + "\n")
            names.append(n)
        return names

    def norm(text, name): return re.sub(r"/tmp/wccmc-\w+/[\w-]+", "DIR", text).replace(name, "@.c")

    def solo(arg):
        u, fl, mode = arg
        d = core.subdir("s")
        n = files(d, [u])[0]
        r = run([wcc, *FLAGS[fl], mode, n], cwd=d, timeout=30, cpu=20)
        o = os.path.join(d, n[:-1] + mode[1].lower().replace("c", "o"))
        out = r.out if mode == "-E" else (norm(read(o), n) if os.path.exists(o) and mode == "-S" else (os.path.getsize(o) if os.path.exists(o) else None))
        core.rmtree(d)
        return arg, r.rc, norm(out, n) if mode == "-E" else out, norm(r.err, n), norm(r.out, n) if mode != "-E" else ""

    alone = {}
    for arg, rc, out, err, so in core.pmap(solo, [(u, f, m) for u in U for f in FLAGS for m in ("-S", "-E")], chunksize=8):
        alone[arg] = (rc, out, err, so)
        if rc: raise core.CheckError(f"unit {arg} alone: exit {rc}: {err}")
        rep.outcomes.add(out)

    def one(job):
        seq, fl, mode = job
        d = core.subdir("q")
        try:
            ns = files(d, seq)
            r = run([wcc, *FLAGS[fl], mode, *ns], cwd=d, timeout=60, cpu=40)
            bad = []
            want = [alone[(u, fl, mode)] for u in seq]
            werr = "".join(w[2].replace("@.c", n) for w, n in zip(want, ns))
            if r.rc: return job, [f"exit status {r.rc}: {r.err[-300:]}"]
            if r.err != werr: bad.append(f"diagnostics {r.err[-200:]!r}, alone {werr[-200:]!r}")
            if mode == "-E":
                if r.out != "".join(w[1].replace("@.c", n) for w, n in zip(want, ns)): bad.append("the preprocessed text differs from preprocessing each alone: " + diff(r.out, "".join(w[1].replace("@.c", n) for w, n in zip(want, ns))))
                return job, bad
            for w, n, u in zip(want, ns, seq):
                o = os.path.join(d, n[:-1] + "s")
                if not os.path.exists(o): bad.append(f"no output for {n}"); continue
                t = norm(read(o), n)
                if t != w[1]: bad.append(f"code of {u} differs from compiling it alone: {diff(t, w[1])}")
            extra = set(os.listdir(d)) - {x for n in ns for x in (n, n[:-1] + "s")} - {"h.h"}
            if extra: bad.append(f"leaves {sorted(extra)} behind")
            return job, bad
        finally: core.rmtree(d)

    def diff(a, b):
        for i, (x, y) in enumerate(itertools.zip_longest(a.splitlines(), b.splitlines())):
            if x != y: return f"line {i + 1}: {x!r}, alone {y!r}"
        return "line ends"

    units = list(U)
    jobs = [(list(p), f, "-S") for f in FLAGS for p in itertools.product(units, repeat=2)]
    jobs += [(list(p), "", "-E") for p in itertools.product(units, repeat=2)]
    jobs += [(list(p), "", "-S") for p in itertools.product(HEAVY, repeat=3)]
    if core.THOROUGH:
        jobs += [(list(p), f, "-E") for f in FLAGS if f for p in itertools.product(units, repeat=2)]
        jobs += [(list(p), f, "-S") for f in ("", "-fPIC") for p in itertools.product(units, repeat=3) if not set(p) <= set(HEAVY) or f]
    # one long history: every unit after every other in one process
    jobs += [(units + units[::-1], f, m) for f in FLAGS for m in ("-S", "-E")]
    rep.sample(" ".join(jobs[5][0])); rep.sample(" ".join(jobs[-30][0]) + " " + jobs[-30][1]); rep.sample("all units, then all in reverse order")
    seen = set()
    for job, bad in core.pmap(one, jobs, chunksize=16, stop=lambda: len(rep.fails) > 25):
        seq, fl, mode = job
        rep.evals += 1
        rep.transitions += len(seq)
        rep.states += 1
        rep.nontrivial += len(set(seq)) > 1
        if bad:
            k = f"seq:{mode}{fl}:{','.join(seq)}"
            rep.fail(k, "; ".join(bad)[:600], {**{f"{i}_{u}.c": U[u] for i, u in enumerate(seq)}, "h.h": HEAD, "run.sh": f"cd $(dirname $0); ${{1:-/repo/wcc}} {' '.join(FLAGS[fl])} {mode} {' '.join(f'{i}_{u}.c' for i, u in enumerate(seq))}\n"})

    # objects: -c over several files gives one object each, and the objects are what -S and as give
    def objs(seq):
        d = core.subdir("o")
        try:
            ns = files(d, seq)
            r = run([wcc, "-c", *ns], cwd=d, timeout=60)
            if r.rc: return seq, f"-c exits with {r.rc}: {r.err[-200:]}"
            for n in ns:
                o = os.path.join(d, n[:-1] + "o")
                if not os.path.exists(o): return seq, f"-c with several files makes no {n[:-1]}o"
                run([wcc, "-S", n], cwd=d)
                run(["as", n[:-1] + "s", "-o", "ref.o"], cwd=d)
                if open(o, "rb").read() != open(os.path.join(d, "ref.o"), "rb").read(): return seq, f"{n[:-1]}o is not the object of {n}"
            return seq, None
        finally: core.rmtree(d)
    for seq, bad in core.pmap(objs, [list(p) for p in itertools.product(["plain", "static", "strings", "macro", "floats"], repeat=2)] + [["plain", "tags", "ru4"], ["usetype", "typedef", "usetype"]]):
        rep.evals += 1
        rep.states += 1
        if bad: rep.fail("obj:" + ",".join(seq), bad, {f"{i}_{u}.c": U[u] for i, u in enumerate(seq)})
    rep.traces = rep.evals
    rep.exhaustive = True
    return rep.finish()
