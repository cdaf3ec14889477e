"""C29: position-independent code and shared libraries: every symbol kind x access form, with definition and use in every placement across executable
and libraries, by every mix of compilers and code models, against the same program linked statically by gcc."""
import fnmatch, itertools, os
from .. import core, corpus
from ..core import Report, read, run, write
from ..diff import Case, Engine

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of (symbol kind, access form) x placement of definition and use (executable, library, other library, both) x code model x compiler of each side x binding mode, executed and compared with a static build of the reference compiler; the batches of C01-C16 run as shared libraries"
NOTE = "Thread-local storage, visibility attributes and symbol versions are not in the language. Interposed definitions are included."

TYPES = """struct in { short x, y; }; struct st { int a; char c; long l[3]; struct in in; unsigned b : 5; int b2 : 7; double d; float f; long double ld; char *s; int (*fn)(int); struct st *next; };
union un { int i; char c[8]; double d; };
"""
# name, declaration, initializer
SYMS = [
    ("vi", "int vi", "17"), ("vc", "char vc", "'x'"), ("vuc", "unsigned char vuc", "200"), ("vs", "short vs", "-300"), ("vl", "long vl", "1L << 40"), ("vul", "unsigned long vul", "~0UL"), ("vd", "double vd", "2.5"), ("vf", "float vf", "1.25f"), ("vld", "long double vld", "3.75L"),
    ("vst", "struct st vst", '{1, \'c\', {2, 3, 4}, {5, 6}, 7, -8, 9.5, 1.5f, 2.25L, "str", fone, &vst}'), ("vun", "union un vun", "{77}"), ("arr", "int arr[6]", "{1, 2, 3, 4, 5, 6}"), ("mat", "short mat[3][4]", "{{1, 2, 3, 4}, {5, 6, 7, 8}, {9, 10, 11, 12}}"), ("ca", "char ca[8]", '"hello"'), ("sarr", "struct st sarr[2]", "{{1}, {2, 'b', {1, 2, 3}}}"), ("da", "double da[3]", "{1.5, 2.5, 3.5}"),
    ("pi", "int *pi", "arr + 1"), ("pst", "struct st *pst", "&sarr[1]"), ("pc", "char *pc", '"literal"'), ("pp", "int **pp", "&pi"), ("fp", "int (*fp)(int)", "ftwo"), ("fpa", "int (*fpa[3])(int)", "{fone, ftwo, fone}"), ("ppd", "double *ppd", "&da[1]"), ("pmat", "short (*pmat)[4]", "mat + 1"),
    ("com", "int com", None), ("coma", "long coma[5]", None), ("comst", "struct st comst", None), ("comp", "char *comp", None), ("big", "char big[5000]", None),
]
FUNS = "int fone(int a) { emit(a); return a + 1; } int ftwo(int a) { emit(a * 2); return a + 2; } struct st fst(int a) { struct st s; s = vst; s.a = a; return s; } double fdd(double a) { return a * 2 + vd; } struct in fin(struct in a) { a.x += a.y; return a; } void fvoid(int *p) { (*p)++; } int fvar(int n, ...) { return n + vi; } long double fld(long double a) { return a + vld; } char *fstr(void) { return \"from the library\"; } int *faddr(int i) { return &arr[i]; } int fcnt(void) { static int n = 3; return n++; }\n"
FDECL = "int fone(int), ftwo(int); struct st fst(int); double fdd(double); struct in fin(struct in); void fvoid(int *); int fvar(int n, ...); long double fld(long double); char *fstr(void); int *faddr(int); int fcnt(void);\n"
# lvalue -> how it is emitted
LV = {"vi": "i", "vc": "i", "vuc": "i", "vs": "i", "vl": "i", "vul": "i", "vd": "d", "vf": "f", "vld": "L", "vst.a": "i", "vst.c": "i", "vst.l[1]": "i", "vst.l[i]": "i", "vst.in.y": "i", "vst.b": "b", "vst.b2": "b", "vst.d": "d", "vst.f": "f", "vst.ld": "L", "vst.s": "p", "vst.next->a": "i", "vun.i": "i", "vun.c[2]": "i", "vun.d": "d", "arr[0]": "i", "arr[2]": "i", "arr[i]": "i", "*arr": "i", "*(arr + i)": "i", "i[arr]": "i", "mat[1][2]": "i", "mat[i][j]": "i", "*mat[i]": "i", "(*(mat + 1))[3]": "i", "ca[1]": "i", "ca[i]": "i", "sarr[1].a": "i", "sarr[j].l[i]": "i", "sarr[j].in.x": "i", "sarr[j].ld": "L", "sarr->a": "i", "(sarr + 1)->d": "d", "da[i]": "d", "*pi": "i", "pi[i]": "i", "pst->a": "i", "pst->l[i]": "i", "pst->b": "b", "*pc": "r", "pc[2]": "r", "**pp": "i", "*pp[0]": "i", "*ppd": "d", "ppd[1]": "d", "(*pmat)[1]": "i", "pmat[0][i]": "i", "com": "i", "coma[0]": "i", "coma[i]": "i", "comst.a": "i", "comst.ld": "L", "comst.in.x": "i", "comp": "p", "big[4999]": "i", "big[i]": "i", "*faddr(i)": "i", "*fstr()": "r"}
EM = {"i": "emit((long) {})", "d": "emitd({})", "f": "emitf({})", "L": "emitld({})", "b": "emit({})", "p": "emit({} != 0)", "r": "emit({})"}


def forms(full):
    """(key, text of a test body)"""
    for lv0, k in LV.items():
        lv = f"({lv0})" if lv0[0] == "*" else lv0
        em = EM[k]
        I = "int i = 2, j = 1; "
        if True:
            yield f"read:{lv}", I + em.format(lv) + ";"
            yield f"cond:{lv}", I + f"emit({lv} ? 1 : 2); if (!{lv}) emit(3); while ({lv}) {{ emit(4); break; }} emit({lv} && i || {lv});"
            yield f"arg:{lv}", I + (f"emit(fone((int) ({lv}))); emitd(fdd({lv})); emit(fvar(1, {lv}));" if k != "p" else f"emits({lv} ? {lv} : \"none\");")
            if k in "pr": yield f"expr:{lv}", I + (f"emit({lv} == {lv}); emit(({lv} + 1) - {lv});" if k == "p" else f"emit({lv} * 2 + i);")
            else: yield f"expr:{lv}", I + em.format(f"({lv} * 2 + i - {lv})") + f"; emit({lv} > i); emit((int) {lv} << 1); emit(arr[(int) {lv} & 3]);"
        if k in "idfLb":
            yield f"write:{lv}", I + f"{lv} = 5; " + em.format(lv) + f"; show(); {lv} = {lv} + 1; " + em.format(lv) + ";"
            yield f"modify:{lv}", I + f"{lv}++; --{lv}; {lv} += 3; " + em.format(f"{lv}++") + f"; {lv} *= 2; " + em.format(f"({lv} -= 1)") + "; show();"
            yield f"copy:{lv}", I + f"long k = (long) ({lv}); vl = {lv}; {lv} = com = vi; vd = {lv}; emit(k); emit(vl); emitd(vd); show();"
        if k in "idfL":
            T = {"d": "double", "f": "float", "L": "long double"}.get(k)
            yield f"addr:{lv}", I + f"void *p = &{lv}; char *q = (char *) &{lv}; emit(p == (void *) &{lv}); emit(p != 0); emitb(p, 1); emit(q + 2 - (char *) &{lv}); emit((&{lv} + 1) - &{lv});"
            if T: yield f"ptr:{lv}", I + f"{T} *p = &{lv}; *p += 1; " + em.format("*p") + f"; *&{lv} = 4; " + em.format(lv) + ";"
    for n, d, _ in SYMS:
        yield f"same:{n}", f"emit((void *) &{n} == where_{n}()); emit((char *) &{n} + 1 - (char *) where_{n}()); emit(sizeof {n}); emit((void *) &{n} == (void *) &vi);"
        yield f"block:{n}", f"{{ extern {d}; emit((void *) &{n} == where_{n}()); emitb(&{n}, {'1' if n in ('pi', 'pst', 'pc', 'pp', 'fp', 'ppd', 'pmat', 'vst', 'fpa', 'comp') or '*' in d else 'sizeof ' + n}); }}" if n not in ("pi", "pst", "pc", "pp", "fp", "fpa", "ppd", "pmat", "comp", "vst", "sarr", "comst", "vld") else f"{{ extern {d}; emit((void *) &{n} == where_{n}()); }}"
        yield f"sinit:{n}", f"static void *p = &{n}; static char *q = (char *) &{n} + 3; static struct {{ int k; void *a[2]; }} t = {{1, {{&{n}, (char *) &{n} + 8}}}}; emit(p == where_{n}()); emit(q - (char *) where_{n}()); emit(t.a[0] == p); emit((char *) t.a[1] - (char *) p);"
    for f in ("fone", "ftwo", "fst", "fdd", "fin", "fvoid", "fvar", "fld", "fstr", "faddr", "fcnt"):
        yield f"fsame:{f}", f"static void *q = (void *) {f}; static void *t[2] = {{(void *) &{f}, (void *) {f}}}; void *p = (void *) {f}; emit(p == where_{f}()); emit((void *) &{f} == p); emit(q == p); emit(t[0] == t[1]); emit(t[1] == p); emit((void *) *{f} == p); emit({f} != 0); emit({f} ? 1 : 2); emit((void *) {f} == (void *) fone);"
    for k, b in {
        "call": "emit(fone(3)); emit(ftwo(fone(1))); emitd(fdd(1.5)); emitld(fld(2)); emits(fstr()); emit(fcnt()); emit(fcnt()); emit(fvar(2, 3, 4.5));",
        "pcall": "int (*p)(int) = fone; emit(p(1)); p = &ftwo; emit((*p)(2)); p = vi > 3 ? fone : ftwo; emit(p(5)); emit((vi > 300 ? fone : ftwo)(6)); emit((**p)(7)); emit((&fone)(2)); emit((*fone)(2));",
        "fp": "emit(fp(1)); emit((*fp)(2)); emit(fp == ftwo); fp = fone; emit(fp(4)); show(); fpa[1] = fp; emit(fpa[1] == fone); emit(fpa[1](4)); { int i; for (i = 0; i < 3; i++) emit(fpa[i](i)); } emit(vst.fn(5)); emit(vst.fn == fone); emit((*vst.fn)(8)); vst.fn = ftwo; emit(vst.fn(1)); show();",
        "table": "static int (*t[3])(int) = {fone, ftwo, fone}; static struct { char *n; int (*f)(int); } u[2] = {{\"a\", ftwo}, {\"b\", fone}}; emit(t[1](4)); emit(u[1].f(2)); emits(u[0].n); emit(t[0] == u[1].f); emit(t[0] == fone);",
        "fparg": "emit(apply(fone, 3)); emit(apply(fp, 3)); emit(apply(fpa[0], 3)); emit(apply(vst.fn, 3)); emit(apply(local, 3));",
        "structs": "struct st a, *p = &vst; a = vst; emit(a.l[2]); emits(a.s); a.a = 50; vst = a; emit(vst.a); sarr[1] = vst; emit(sarr[1].l[0]); comst = *p; emit(comst.b); *pst = comst; show(); a = fst(9); emit(a.a); emit(a.next == &vst); vst.in = fin(vst.in); emit(vst.in.x); emit(fin(sarr[0].in).y); vst = sarr[0]; vst.next = &vst; show();",
        "passing": "fvoid(&vi); emit(vi); fvoid(arr + 2); emit(arr[2]); fvoid(&vst.a); emit(vst.a); fvoid(&sarr[1].a); emit(sarr[1].a); fvoid(faddr(3)); emit(arr[3]); fvoid(pi); emit(*pi); fvoid(*pp); emit(**pp); fvoid(&com); emit(com); show();",
        "strings": "char *a = \"one\", *b = \"two\"; static char *t[2] = {\"x\", \"y\"}; emits(a); emits(t[1]); emits(pc); pc = \"new\"; show(); emits(pc); comp = \"set\"; show(); emits(\"dir\" \"ect\"); emit(\"abc\"[1]); emit(*\"q\"); emit(sizeof \"abcd\"); emits(\"hello\" + 2); vst.s = a; show(); { char loc[] = \"local\"; loc[0] = 'L'; emits(loc); } { int *w = (int *) L\"wi\"; emit(w[1]); }",
        "pointers": "int *p = arr, *q = &arr[5], **r = &pi; char *c = (char *) &vst; emit(q - p); emit(p < q); emit(pi - arr); emit(*r == arr + 1); pi++; emit(*pi); *pi++ = 40; emit(arr[2]); emit(*--pi); *r = &vi; emit(*pi); emit(pi == &vi); emit(c == (char *) vst.next); emit((char *) &vst.in - c); emit((char *) &sarr[1] - (char *) sarr); emit((short *) pmat - &mat[0][0]); emit(ppd - da); emit(arr + 3 == &arr[3]); emit(&arr[6] - &arr[0]); emit((long) &vst.d - (long) &vst.a); emit(&*pi == pi); emit(pp == &pi); pst = &vst; pi = arr + 1; show();",
        "loops": "int i, s = 0; for (i = 0; i < 6; i++) s += arr[i] * com++ + coma[i % 5]++; emit(s); for (vi = 0; vi < 3; vi++) s += vi; emit(vi); { int *p; for (p = arr; p < arr + 6; p++) *p = s + (p - arr); } show(); while (vuc++) ; emit(vuc); do vl /= 2; while (vl > 10); emit(vl); for (i = 0; ca[i]; i++) ca[i] ^= 32; emits(ca); for (i = 0; i < 5000; i += 499) big[i] = i; for (i = s = 0; i < 5000; i++) s += big[i]; emit(s);",
        "static": "static int n = 4; static int *p = &n; static struct st s = {3}; static struct st *ps = &s; static int a[3] = {1, 2, 3}, *q = a + 1; n += vi; emit(*p); ps->a++; emit(s.a); emit(*q); q[1] = n; emit(a[2]); emit(p == &n); emit(lsta + lsta2[1]); lsta++; *lstap += 2; emit(lsta); emit(lsfn(3)); emit(lsfp(4)); emit(lsfp == lsfn); emit(lstab[1](2)); emit(lsst.l[1]); lsst.l[1] = n; emit(lsst.l[1]);",
        "switch": "switch (vi) { case 17: emit(1); switch (arr[2]) { case 3: emit(2); break; default: emit(3); } break; default: emit(4); } switch (vst.c) { case 'c': emit(5); } switch (fone(1)) { case 2: emit(6); }",
        "many": "emit(((vi + vc * arr[1]) ^ (vs - (int) vl)) + ((mat[1][1] * sarr[1].l[2] - com) | (vuc & vst.a)) + fone(vi + ftwo(arr[2] + vst.a) * (int) vd) - (vst.l[0] + pst->l[1] * pi[1] - **pp)); emitd(vd * vf + da[1] / da[2] - fdd(vd + da[0]) * vst.d); emitld(vld * vst.ld + fld(vld) - vd);",
        "chain": "vi = com = arr[1] = *pi = vst.a = sarr[1].a = 9; show(); vd = vf = da[1] = vst.d = 3; show(); vld = vst.ld = vd; emitld(vld); com = vi++ + ++arr[3] - vst.a--; show();",
        "ternary": "int *p = vi ? &vi : arr; struct st *s = com ? pst : &vst; emit(*p); emit(s->a); emit((vi > 3 ? arr : coma != 0 ? pi : 0)[1]); emit((com ? vst : sarr[1]).l[1]); emits(com ? fstr() : pc); emitd(vi ? vd : da[1]);",
        "comma": "int *p; p = (vi++, &arr[2]); emit(*p); emit((fone(1), vi)); (com = 3, arr[0] = com); emit(arr[0]); emit((vst.a, sarr)[1].a);",
        "casts": "emit((char) vi); emit((unsigned char) vl); emit((int) vd); emit((long) vf); emitd((double) vi); emitf((float) vl); emitld(vi); emit((int) vld); emitd((double) vul); emit(*(char *) &vi); emit(((char *) arr)[4]); emit(*(short *) &mat[1]); emit(((struct in *) &vst.in)->y); emit((int) (long) (void *) (char *) 5); emit(*(long *) vst.l);",
    }.items(): yield k, b


USEX = """static int lsta = 5, lsta2[3] = {1, 2, 3}, *lstap = &lsta; static int lsfn(int a) { return a * 3 + lsta; } static int (*lsfp)(int) = lsfn; static int (*lstab[2])(int) = {lsfn, lsfn}; static struct st lsst = {1, 2, {3, 4, 5}};
int local(int a) { return a - 1 + vi; }
"""


def units(full):
    """(definitions, uses, keys)"""
    ext = "".join(f"extern {d};\n" for _, d, _ in SYMS)
    defs = TYPES + ext + FDECL
    order = [s for s in SYMS if s[2] is None] + [s for s in SYMS if s[2] is not None]
    defs += "".join(f"{d};\n" if i is None else f"{d} = {i};\n" for _, d, i in order) + FUNS
    names = [n for n, _, _ in SYMS] + ["fone", "ftwo", "fst", "fdd", "fin", "fvoid", "fvar", "fld", "fstr", "faddr", "fcnt"]
    defs += "".join(f"void *where_{n}(void) {{ return (void *) &{n}; }}\n" for n in names)
    defs += "int apply(int (*f)(int), int a) { return f(a) + 1; }\n"
    sv = "".join({"i": "emit({})", "p": "emit({} != 0)", "b": "emit({})", "d": "emitd({})", "f": "emitf({})", "L": "emitld({})", "r": "emit({})"}[k].format(l) + "; " for l, k in LV.items() if "(" not in l and "vun.d" != l)
    defs += f"void show(void) {{ int i = 2, j = 1; {sv} emits(pc); emits(ca); emit(fp == ftwo); emit(pi - arr); }}\n"
    fs = list(forms(full))
    # the initial values are put back before each case, by the defining side
    reset = "struct st zst; int *z0pi; "
    defs += "".join(f"static {d.replace(n, 'sv_' + n, 1) if 'fpa' != n else 'int (*sv_fpa[3])(int)'};\n" for n, d, _ in SYMS)
    cp = lambda a, b: "{ char *a = (char *) &%s, *b = (char *) &%s; unsigned long k; for (k = 0; k < sizeof %s; k++) a[k] = b[k]; } " % (a, b, b)
    defs += "void save(void) { static int once; if (once++) return; " + "".join(cp("sv_" + n, n) for n, _, _ in SYMS) + "}\nvoid back(void) { save(); " + "".join(cp(n, "sv_" + n) for n, _, _ in SYMS) + "}\n"
    uses = TYPES + ext + FDECL + "".join(f"void *where_{n}(void);\n" for n in names) + "void show(void), back(void); int apply(int (*)(int), int);\n" + USEX
    return defs, uses, fs


PRE = "void emit(long); void emitu(unsigned long); void emitf(float); void emitd(double); void emitld(long double); void emits(char *); void emitb(void *, long);\n"

# placement: (definitions in, uses in, executable mode)
PLACES = {"static": ("exe", "exe"), "uselib": ("exe", "l1"), "deflib": ("l1", "exe"), "onelib": ("l1", "l1"), "twolibs": ("l1", "l2"), "interposed": ("both", "l1")}


def configs():
    for pl, (dp, up) in PLACES.items():
        for dc, uc in itertools.product(("wcc", "gcc"), repeat=2):
            if dc == uc == "gcc": continue
            for mode in ("nopie", "pie"):
                dms = ["pic"] if dp != "exe" or mode == "pie" else ["pic", "abs"]
                ums = ["pic"] if up != "exe" or mode == "pie" else ["pic", "abs"]
                for dm, um in itertools.product(dms, ums):
                    for bind in ("lazy", "now"):
                        for ld in ("gcc", "wcc"):
                            if ld == "wcc" and (dp == up == "exe"): continue
                            if bind == "now" and ld == "wcc": continue
                            yield pl, dc, uc, mode, dm, um, bind, ld


class Check:
    def __init__(self, rep, full):
        self.rep, self.full = rep, full
        self.wcc = os.path.join(core.build("plain"), "wcc")
        self.eng = Engine(rep)
        self.defs, self.uses, self.fs = units(full)
        self.d = core.subdir("pic")
        self.chunks = [self.fs[i:i + 40] for i in range(0, len(self.fs), 40)]
        self.objs = {}

    def src(self, cases): return PRE + self.uses + "".join(f"void t{i}(void) {{ back(); {{ {b} }} }}\n" for i, (k, b) in enumerate(cases))

    def comp(self, d, text, name, cc, pic):
        c, o = write(os.path.join(d, f"{name}.c"), text), os.path.join(d, f"{name}-{cc}-{pic}.o")
        if os.path.exists(o): return o, None
        if cc == "wcc": r = run([self.wcc, *(["-fPIC"] if pic == "pic" else []), "-c", c, "-o", o], timeout=100)
        else: r = run(["gcc", "-std=gnu89", "-w", "-O0", "-fwrapv", "-fno-builtin", "-fcommon", *(["-fPIC"] if pic == "pic" else ["-fno-pie"]), "-c", c, "-o", o], timeout=100)
        return (o, None) if r.rc == 0 else (None, f"{cc} failed: " + (r.err + r.out)[-300:])

    def build(self, d, cases, cfg):
        """(executable, None) or (None, what failed)"""
        pl, dc, uc, mode, dm, um, bind, ld = cfg
        dp, up = PLACES[pl]
        o1, e1 = self.comp(d, PRE + self.defs, "defs", dc, dm if dp != "both" else "pic")
        o2, e2 = self.comp(d, self.src(cases), "uses", uc, um)
        if not o1 or not o2: return None, e1 or e2
        tag = "-".join(cfg)
        exe, libs = os.path.join(d, tag), {}
        parts = {"exe": [], "l1": [], "l2": []}
        if dp == "both":
            parts["l1"].append(o1)
            alt, e3 = self.comp(d, PRE + self.defs, "defs", dc, "pic")      # the executable's copy wins
            parts["exe"].append(alt)
        else: parts[dp].append(o1)
        parts[up].append(o2)
        made = []
        for l in ("l1", "l2"):
            if not parts[l]: continue
            so = os.path.join(d, f"lib{tag}{l}.so")
            r = run([self.wcc, "-shared", "-o", so, *parts[l]] if ld == "wcc" else ["gcc", "-shared", "-o", so, *parts[l], f"-Wl,-z,{bind}"], cwd=d, timeout=60)
            if r.rc: return None, f"linking the library failed: {r.err[-400:]}"
            made.append(so)
        r = run(["gcc", "-no-pie" if mode == "nopie" else "-pie", "-rdynamic", "-o", exe, *self.eng.objs, self.table(d, len(cases)), *parts["exe"], *made[::-1], f"-Wl,-z,{bind}", "-Wl,-rpath," + d, "-lm"], timeout=60)
        if r.rc: return None, f"linking the executable failed: {r.err[-400:]}"
        return exe, None

    def table(self, d, n):
        p = os.path.join(d, "table.o")
        if not os.path.exists(p):
            s = "\t.section .data.rel,\"aw\"\n\t.globl mc_cases, mc_n\n\t.balign 8\nmc_n: .quad %d\nmc_cases:\n" % n + "".join("\t.quad t%d\n" % i for i in range(n)) + '\t.section .note.GNU-stack,"",@progbits\n'
            r = run(["as", "-o", p], input=s)
            if r.rc: raise core.CheckError("table: " + r.err)
        return p

    def one(self, job):
        cases, cfgs = job
        d = core.subdir("p")
        out = []
        try:
            ref, err = self.build(d, cases, ("static", "gcc", "gcc", "nopie", "abs", "abs", "lazy", "gcc"))
            if not ref: raise core.CheckError("reference: " + err)
            want = self.eng.execute(ref, len(cases), full=True)
            for i in range(len(cases)):
                if i not in want or want[i][0]: raise core.CheckError(f"the reference fails on {cases[i]}: {want.get(i)}")
            for cfg in cfgs:
                exe, err = self.build(d, cases, cfg)
                if not exe:
                    out.append((cfg, None, err)); continue
                got = self.eng.execute(exe, len(cases), full=True)
                for i, (k, b) in enumerate(cases):
                    if i not in got or got[i][:3] != want[i][:3]: out.append((cfg, (k, b), "" if i not in got else self.eng.describe(got[i], want[i])))
                if exe != ref:
                    for f in os.listdir(d):
                        if f.startswith(("-".join(cfg), "lib" + "-".join(cfg))): os.unlink(os.path.join(d, f))
            return cases, len(cases) * len(cfgs), out, {v[1] for v in want.values()}
        finally:
            core.rmtree(d)


class PicEngine(Engine):
    """The batch is a shared library, or part of a position-independent executable."""
    pie = False

    def compile_wcc(self, d, src, tag="w", flags=None): return super().compile_wcc(d, src, tag, [*self.wcc_flags, "-fPIC"] if flags is None else flags)

    def table(self, d, n):
        p = os.path.join(d, "table.o")
        if not os.path.exists(p):
            s = "\t.section .data.rel,\"aw\"\n\t.globl mc_cases, mc_n\n\t.balign 8\nmc_n: .quad %d\nmc_cases:\n" % n + "".join("\t.quad t%d\n" % i for i in range(n)) + '\t.section .note.GNU-stack,"",@progbits\n'
            r = run(["as", "-o", p], input=s)
            if r.rc: raise core.CheckError("table: " + r.err)
        return p

    def link(self, d, o, tag, n):
        exe = os.path.join(d, tag + ".exe")
        if not tag.startswith("w"): return super().link(d, o, tag, n)
        if self.pie: cmd = ["gcc", "-pie", "-o", exe, *self.objs, self.table(d, n), o, *self.link_flags, "-lm"]
        else:
            so = os.path.join(d, f"lib{tag}.so")
            r = run(["gcc", "-shared", "-Wl,-z,defs" if False else "-Wl,-z,lazy", "-o", so, o], timeout=60)
            if r.rc: return None, "as a library: " + r.err.strip()[:400]
            cmd = ["gcc", "-pie", "-rdynamic", "-o", exe, *self.objs, self.table(d, n), so, "-Wl,-rpath," + d, *self.link_flags, "-lm"]
        r = run(cmd, timeout=60)
        return (exe, None) if r.rc == 0 else (None, r.err.strip()[:400])


def main():
    full = core.THOROUGH
    rep = Report("C29", LEVEL, "(symbol, form) x placement x code model x compilers x binding; every observation compared", ["the static gcc build of the same sources as reference"])
    ch = Check(rep, full)
    cfgs = list(configs())
    jobs = [(c, cfgs[i::4]) for c in ch.chunks for i in range(4)]
    for k, b in (ch.fs[0], ch.fs[len(ch.fs) // 2], ch.fs[-1]): rep.sample(f"{k}: {b}"[:300])
    for cases, n, fails, hs in core.pmap(ch.one, jobs, stop=lambda: len(rep.fails) > 40):
        rep.evals += n
        rep.outcomes |= hs
        for cfg, case, det in fails:
            name = ":".join(cfg)
            if case is None: rep.fail(f"{name}:build", det, {"defs.c": PRE + ch.defs, "uses.c": ch.src(cases)})
            else: rep.fail(f"{case[0]}:{name}", det, {"defs.c": PRE + ch.defs, "uses.c": ch.src([case]), "README2": "definitions in, uses in: %s; compilers %s %s; executable %s; code models %s %s; binding %s; library linked by %s\n" % (PLACES[cfg[0]], *cfg[1:])})
    rep.extra.update(forms=len(ch.fs), configurations=len(cfgs))
    every = {"c01": 61, "c02": 53, "c03": 47, "c04": 37, "c05": 44, "c06": 29, "c11": 23, "c12": 37, "c13": 11, "c14": 27, "c15": 41, "c16": 6, "c22": 31}
    for m, ev in every.items():
        if rep.fails: break
        known = [k for k, _ in core.known_findings(m.upper())]      # what is already recorded of the property itself
        for e, cases, batch in corpus.record(m)[0]:
            cases = [c for c in cases if not any(fnmatch.fnmatchcase(c.key, k) for k in known)]
            for pie in (False, True):
                ev2 = max(1, ev // 3) if full else ev
                bs = corpus.chunks(cases, batch)[int(pie)::ev2]
                if not bs: continue
                pe = PicEngine(rep, prologue=e.prologue, wcc_flags=e.wcc_flags, ref_flags=e.ref_flags, pre=e.pre, link_flags=e.link_flags)
                pe.pie = pie
                pe.objs, pe.aux_src = list(e.objs), e.aux_src
                pe.go([Case(("pie:" if pie else "lib:") + m.upper() + ":" + c.key, c.body, c.decls) for b in bs for c in b], batch=batch)
    return rep.finish()
