"""C13: every brace structure, prefix and string form of initializers over a family of object types, for static and automatic objects; every
scalar of the object and of its neighbours is compared with gcc and clang."""
import itertools
from .. import core
from ..aggr import SC, value
from ..core import Report
from ..diff import Case, Engine

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of initializers (every brace structure, every prefix, every string length) over enumerated object types times storage kinds; all scalars and array lengths compared with gcc and clang"
NOTE = "C89 initializers (no designators, which wcc does not support). The stack is filled with noise before each automatic object. Values are distinct per scalar, so an element in the wrong place shows."


class Ty:
    """kind: scalar key, 'A' (elem, n), 'S'/'U' members [(name, Ty, width)]"""
    n = 0

    def __init__(self, kind, sub=None, n=0):
        self.kind, self.sub, self.n = kind, sub, n
        if kind == "A": self.name = f"{sub.name}[{n}]"
        elif kind in "SU":
            self.name = kind + "(" + "".join((t.name + (f":{w}" if w is not None else "")) for _, t, w in sub) + ")"
            self.tag = f"{'struct' if kind == 'S' else 'union'} T{Ty.n}_"
            Ty.n += 1
        else: self.name = kind

    def spec(self):
        if self.kind == "A": return self.sub.spec()
        return self.tag if self.kind in "SU" else SC[self.kind][0]

    def post(self, unknown=False): return (f"[{'' if unknown else self.n}]" + self.sub.post()) if self.kind == "A" else ""
    def decl(self, v, unknown=False): return f"{self.spec()} {v}{self.post(unknown)}"

    def defs(self, out):
        if self.kind == "A": self.sub.defs(out)
        elif self.kind in "SU":
            for _, t, _ in self.sub: t.defs(out)
            d = self.tag + " { " + " ".join(f"{t.decl(n or '')}{'' if w is None else f' : {w}'};" for n, t, w in self.sub) + " };"
            if d not in out: out.append(d)

    def leaves(self):
        """[(suffix, kind)]; of a union, its first member"""
        if self.kind == "A": return [(f"[{i}]{s}", k) for i in range(self.n) for s, k in self.sub.leaves()]
        if self.kind in "SU": return [(f".{n}{s}", k) for n, t, w in (self.sub if self.kind == "S" else self.sub[:1]) if n for s, k in t.leaves()]
        return [("", self.kind)]

    def emit(self, v): return " ".join(f"{SC[k][1]}({'(long) ' if k == 'p' else ''}{v}{s});" for s, k in self.leaves())

    def parts(self):
        if self.kind == "A": return [(self.sub, None)] * self.n
        return [(t, w) for n, t, w in (self.sub if self.kind == "S" else self.sub[:1]) if n]

    @property
    def agg(self): return self.kind in "ASU"


def s(k): return Ty(k)
def A(t, n): return Ty("A", t if isinstance(t, Ty) else Ty(t), n)


def rec(kind, *m):
    out = []
    for i, t in enumerate(m):
        w = None
        if isinstance(t, tuple): t, w = t
        t = t if isinstance(t, Ty) else Ty(t)
        out.append((None if w is not None and w <= 0 else f"m{i}", t, None if w is None else abs(w)))
    return Ty(kind, out)


def S(*m): return rec("S", *m)
def U(*m): return rec("U", *m)


STR = ['""', '"a"', '"ab"', '"abc"', '"a\\0b"', '"\\377\\1"', '"ab" "c"', '"abcd"', '"abcde"']
SLEN = {'""': 0, '"a"': 1, '"ab"': 2, '"abc"': 3, '"a\\0b"': 3, '"\\377\\1"': 2, '"ab" "c"': 3, '"abcd"': 4, '"abcde"': 5}


def elided(t, w, last, braced):
    """Token lists that initialize t without braces around t. A prefix is possible only if nothing follows."""
    if not t.agg:
        yield [("v", t.kind, w)]
        if braced: yield ["{", ("v", t.kind, w), "}"]
        return
    if t.kind == "A" and t.sub.kind in ("c", "C"):
        for x in STR:
            if SLEN[x] <= t.n: yield [x]
    if last is None: return
    yield from seq(t.parts(), last, braced)


def seq(parts, last, braced, must_one=True):
    """Sequences for consecutive parts; if last, any non-empty prefix (the last one itself possibly partial)."""
    if not parts: return
    (t, w), rest = parts[0], parts[1:]
    if not rest or last:        # stop here
        for x in sub(t, w, last, braced): yield x
    if rest:
        for x in sub(t, w, False, braced):
            for y in seq(rest, last, braced): yield x + [","] + y


def sub(t, w, last, braced):
    if t.agg:
        yield from full(t, braced)
        for x in elided(t, w, last, braced):
            if x[0] != "{": yield x     # a brace would open t itself
    else: yield from elided(t, w, last, braced)


def full(t, braced):
    """Braced initializers of t."""
    if t.kind == "A" and t.sub.kind in ("c", "C"):
        for x in STR:
            if SLEN[x] <= t.n: yield ["{", x, "}"]
    for x in seq(t.parts(), True, braced):
        yield ["{"] + x + ["}"]


def text(toks, runtime=False, comma=False, seed=0):
    out, n = [], seed
    depth = 0
    for t in toks:
        if isinstance(t, tuple):
            n += 1
            v = value(t[1], n)
            if t[2] is not None: v = str(n * 37 % (1 << (t[2] - 1))) if t[2] > 1 else "0"
            if runtime: v = f"({SC[t[1]][0]}) id{'d' if t[1] in 'fdD' else 'p' if t[1] == 'p' else ''}({v})"
            out.append(v)
        else: out.append(t)
    if comma and out[-1] == "}": out.insert(-1, ",")
    return " ".join(out)


def types():
    for k in "chilfdDp": yield A(k, 1); yield A(k, 2); yield A(k, 3); yield S(k); yield S(k, "c"); yield S("c", k); yield S(k, A(k, 2))
    yield from (A(A("i", 2), 2), A(A("h", 3), 2), A(A(A("c", 1), 2), 2), A(A("c", 3), 2), A(A("C", 1), 3))
    yield from (S("c", A("h", 3), "i"), S(S("c", "i"), "l"), S("c", S("h", "i")), S(A("c", 4), "i"), S("i", A("c", 3)), S(A("c", 2), A("c", 3)), A(S(A("c", 3), "i"), 2), A(S("c", "i"), 3), A(S("p", "i"), 2), S(A(S("c", "l"), 2), "c"), S(S(S("c"), "h"), "i"), S("f", "d", "D"), S("D", "c", "D"), S(A("f", 2), S("d")))
    yield from (U("i", "c"), U("l", A("c", 8)), U("d", "i"), S("c", U("i", "c"), "h"), A(U("i", "h"), 3), S(U("l", "i"), U("c")), U(S("c", "i"), "c"), S("c", U(A("h", 2), "c"), "i"), A(S(U("i", "c"), "c"), 2))
    yield from (S(("i", 3), ("i", 29)), S(("I", 5), ("i", -3), ("i", 7), "c"), S("c", ("i", 9), ("I", 2), "h"), A(S(("i", 4), ("i", 12)), 2), S(("i", 31), "c", ("i", 2)), S("i", ("i", -0), ("i", 6)))
    yield from (S(A(A("c", 2), 2), "c"), A(S(A("h", 2), S("c", "c")), 2), S("c", A(A("i", 1), 2), "c"))
    if core.THOROUGH: yield from (A(A("c", 4), 3), A(A(A("i", 2), 2), 2), S(S("c", "i"), A(S("h", "h"), 2), "c"), A(S(A("c", 3), A("i", 2)), 2), S("c", U(S("c", "i"), "l"), A("c", 3), S("i", "i")), A(A("i", 3), 3), S(A("c", 3), A("c", 4), "i", A("h", 2)), A(S("c", ("i", 3), ("i", 5), "h"), 3))


CAP = 4000 if core.THOROUGH else 400
PRO = "static long id(long x) { return x; } static double idd(double x) { return x; } static char *idp(char *x) { return x; } static void dirty(void) { volatile char b[400]; int i; for (i = 0; i < 400; i++) b[i] = 0xa5; } extern int xi; extern char xc[]; "


def cases(rep):
    seen = set()
    for t in types():
        all_ = list(itertools.islice(dict.fromkeys(tuple(x) for x in itertools.chain(full(t, False), full(t, True) if len(t.leaves()) <= 4 else ())), CAP + 1))
        if len(all_) > CAP:
            all_ = all_[:CAP]
            rep.extra.setdefault("types_whose_initializers_were_cut_off", []).append(t.name)
        for n in range(0, len(all_), 8):      # 8 initializers per case
            for ctx in ("static", "lstatic", "auto", "run", "unknown", "aunknown"):
                if "unknown" in ctx and t.kind != "A": continue
                b, decl = "", ""
                for j, x in enumerate(all_[n:n + 8]):
                    comma = (j + n) & 1
                    v, u = f"v{j}", "unknown" in ctx
                    size = f"emit(sizeof({v})); " if u else ""
                    em = (f"{{ int n, k = sizeof({v}) / sizeof({v}[0]); for (n = 0; n < k; n++) {{ {t.sub.emit(f'{v}[n]')} }} }}" if u else t.emit(v))
                    if ctx == "static": v2 = f"g@_{j}"; decl += f"static char pre{j}_@ = 7; {t.decl(v2)} = {text(x, comma=comma)}; static char post{j}_@ = 8; "; b += t.emit(v2) + f" emit(pre{j}_@ + post{j}_@); "; continue
                    if ctx == "unknown": v2 = f"u@_{j}"; decl += f"static {t.decl(v2, True)} = {text(x, comma=comma)}; "; b += f"emit(sizeof({v2})); " + em.replace(v, v2); continue
                    st = "static " if ctx == "lstatic" else ""
                    b += f"dirty(); {{ char pre = 7; {st}{t.decl(v, u)} = {text(x, ctx in ('run', 'aunknown'), comma)}; char post = 8; {size}{em} emit(pre + post); }} "
                yield Case(f"init:{t.name}:{ctx}:{n}", b, decl)
    # strings into character arrays of every size
    strs = ['""', '"a"', '"ab"', '"abc"', '"abcdefg"', '"a\\0"', '"\\0\\0a"', '"\\x41\\t"', '"\\377"', '"a" ""', '"" "a" "b"', '"\\1" "2"']
    ln = [0, 1, 2, 3, 7, 2, 3, 2, 1, 1, 2, 2]
    for k in ("char", "signed char", "unsigned char"):
        for (st, l), br in itertools.product(zip(strs, ln), ("%s", "{ %s }", "{ %s, }")):
            b, decl = "", ""
            for n in [None] + list(range(max(1, l), 10)):
                d = f"[{n or ''}] = {br % st};"
                nm = n or 0
                decl += f"static {k} s{nm}_@{d} {k} t{nm}_@{d} "
                b += f"emit(sizeof(s{nm}_@)); emitb(s{nm}_@, sizeof(s{nm}_@)); emitb(t{nm}_@, sizeof(t{nm}_@)); dirty(); {{ {k} l{d} char p = 3; static {k} m{d} emit(sizeof(l)); emitb(l, sizeof(l)); emitb(m, sizeof(m)); emit(p); }} "
            yield Case(f"str:{k}:{st}:{br}", b, decl)
    for st, l in (('L""', 0), ('L"a"', 1), ('L"abc"', 3), ('L"\\x12345" L"z"', 2), ('L"\\0a"', 2)):
        for br in ("%s", "{ %s }"):
            b, decl = "", ""
            for n in [None] + list(range(max(1, l), 6)):
                d = f"[{n or ''}] = {br % st};"
                nm = n or 0
                decl += f"static int s{nm}_@{d} "
                b += f"emit(sizeof(s{nm}_@)); emitb(s{nm}_@, sizeof(s{nm}_@)); dirty(); {{ int l{d} static int m{d} emit(sizeof(l)); emitb(l, sizeof(l)); emitb(m, sizeof(m)); }} "
            yield Case(f"wstr:{st}:{br}", b, decl)
    # constant initializers of every scalar kind, with conversion
    consts = ["0", "1", "-1", "300", "-129", "65537", "2147483647", "-2147483647 - 1", "4294967295u", "0x123456789al", "-1l", "18446744073709551615ul", "'a'", "'\\377'", "E2@", "sizeof(int)", "sizeof(int) - 5", "1.5", "-2.75f", "3.25L", "1e10", "(char) 300", "(unsigned char) -1", "(unsigned) -1", "-1 < 0u", "3 / 2", "7 % -4", "1 << 31", "-8 >> 1", "~0u", "!5", "1 ? 2 : 3.5", "0 ? 1 : -1", "1.0 / 3", "1.0f / 3", "(int) 2.9", "(long) -2.9f", "1 + 2.5", "2 > 1.5", "-0.0", "(float) 0.1", "(double) 0.1f", "5 && 0.5", "(1, 2)" if False else "4 == 4.0", "(short) 0x12345 + 1", "(long double) 1 / 3", "-(1.5)", "1e300 * 10", "(unsigned long) 1e18", "0x7fffffff + 1u", "1l << 40", "(char) 'a' + 'b'"]
    inr = {"c": 127, "C": 255, "h": 32767, "H": 65535, "i": 2**31 - 1, "I": 2**32 - 1, "l": 2**63 - 1, "L": 2**64 - 1}
    for k in "cChHiIlLfdD":
        em = SC[k][1]
        for n, c in enumerate(consts):
            if k in "cChHiI" and ("1e10" in c or "1e300" in c or "1e18" in c): continue
            if k in "lL" and "1e300" in c: continue
            if k in "CHIL" and c in ("-2.75f", "-0.0", "-(1.5)"): continue        # negative floating value to unsigned: undefined
            t = SC[k][0]
            yield Case(f"const:{k}:{c}", f"static {t} l = {c}; {t} a = {c}; {t} b[2] = {{ {c} }}; static {t} d[2] = {{ 1, {c} }}; {em}(g@); {em}(l); {em}(a); {em}(b[0]); {em}(b[1]); {em}(d[1]); {em}(h@.m); {em}(h@.n); {{ {t} *p = &a; {em}(*p); }}", f"enum {{ E1@, E2@ = 77 }}; static {t} g@ = {c}; static struct {{ char x; {t} m; {t} n; }} h@ = {{ 1, {c} }};")
    # address constants
    D = "static int gi@, ga@[5] = { 1, 2, 3, 4, 5 }, gm@[3][4]; static struct s@ { char c; int i[3]; struct { long l; short h[2]; } n; struct s@ *p; } gs@ = { 1 }, gt@[3]; static char gc@[] = \"hello\"; static int f@(int x) { return x + 5; } extern int ei@[]; static void *vp@ = gc@; "
    addr = [("int *", "&gi@", "&gi@"), ("int *", "ga@", None), ("int *", "ga@ + 2", None), ("int *", "2 + ga@", None), ("int *", "&ga@[3]", None), ("int *", "&ga@[4] - 2", None), ("int *", "&*ga@", None), ("int *", "&*(ga@ + 1)", None), ("int *", "&gm@[1][2]", None), ("int *", "gm@[2]", None), ("int *", "*gm@ + 3", None), ("int *", "*(gm@ + 1)", None), ("int *", "gm@[1] + 1", None), ("int (*%s)[4]", "gm@", None), ("int (*%s)[4]", "gm@ + 2", None), ("int (*%s)[4]", "&gm@[1]", None), ("int (*%s)[3][4]", "&gm@", None), ("int (*%s)[5]", "&ga@", None),
            ("char *", "&gs@.c", None), ("int *", "gs@.i", None), ("int *", "&gs@.i[2]", None), ("int *", "gs@.i + 1", None), ("long *", "&gs@.n.l", None), ("short *", "&gs@.n.h[1]", None), ("short *", "gs@.n.h + 1", None), ("struct s@ *", "&gs@", None), ("struct s@ *", "gt@", None), ("struct s@ *", "gt@ + 1", None), ("struct s@ *", "&gt@[2]", None), ("int *", "&gt@[1].i[1]", None), ("short *", "gt@[2].n.h", None), ("long *", "&(&gt@[1])->n.l", None), ("char *", "&(gt@ + 1)->c", None), ("struct s@ **", "&gs@.p", None),
            ("char *", "gc@", None), ("char *", "gc@ + 3", None), ("char *", "&gc@[1]", None), ("char *", "(char *) &gi@", None), ("char *", "(char *) &gi@ + 3", None), ("void *", "&gi@", None), ("void *", "ga@ + 1", None), ("void *", "(void *) 0", None), ("int *", "0", None), ("int *", "(int *) 8", None), ("char *", "(char *) 0x7fffffffffffl", None), ("long", "(long) &gi@", None), ("unsigned long", "(unsigned long) ga@", None), ("long", "(long) f@", None), ("long", "(long) (ga@ + 1)", None), ("int (*%s)(int)", "f@", None), ("int (*%s)(int)", "&f@", None), ("int (*%s)(int)", "0", None), ("void *", "(void *) f@", None), ("int *", "1 ? ga@ : 0", None), ("int *", "0 ? ga@ : ga@ + 1", None), ("int *", "&1[ga@]", None), ("char *", "(char *) ga@ + sizeof(int)", None), ("int *", "(int *) ((char *) ga@ + 4)", None), ("int *", "&(ga@)[2]", None), ("int *", "&((ga@ + 1)[2])", None), ("const char *", "gc@", None), ("int *", "ga@ - -1", None), ("int *", "(ga@ + 4) - 3", None), ("int *", "&ga@[sizeof(char)]", None)]
    for t, c, _ in addr:
        d = lambda v, q="": q + (t % v if "%s" in t else f"{t}{v}")
        a = t.replace("%s", "x") if "%s" in t else t
        elem = (t % "z[2]") if "%s" in t else f"{t}z[2]"
        elems = lambda v: (t % f"{v}[2]") if "%s" in t else f"{t} {v}[2]"
        dd = lambda v: (t % v) if "%s" in t else f"{t} {v}"
        k = "addrstr" if "[" in c and False else "addr"
        base = "(long) &gi@" if "gi@" in c else "(long) ga@" if "ga@" in c else "(long) gm@" if "gm@" in c else "(long) &gs@" if "gs@" in c else "(long) gt@" if "gt@" in c else "(long) gc@" if "gc@" in c else "(long) f@" if "f@" in c else "0"
        yield Case(f"{k}:{t}:{c}", f"static {dd('l')} = {c}; {dd('a')} = {c}; {elems('b')} = {{ {c} }}; static {elems('e')} = {{ {c}, {c} }}; static struct {{ char q; {dd('m')}; char r; }} w = {{ 1, {c}, 2 }}; emit((long) g@ - {base}); emit((long) l - {base}); emit((long) a - {base}); emit((long) b[0] - {base}); emit((long) b[1]); emit((long) e[1] - {base}); emit((long) w.m - {base}); emit(w.q + w.r); emit((long) ({c}) - {base}); emit((long) h@[1] - {base});", D + f"static {dd('g@')} = {c}; {elems('h@')} = {{ 0, {c} }};")
    # string literals behind pointers
    for n, (t, init, use) in enumerate([("char *%s", '"abc"', "emits(%s);"), ("char *%s", '"abc" + 1', "emits(%s);"), ("char *%s", '&"abc"[2]', "emits(%s);"), ("char *%s[3]", '{ "a", "bc" }', "emits(%s[0]); emits(%s[1]); emit((long) %s[2]);"), ("char *%s[]", '{ "x", "", "yz" }', "emit(sizeof(%s)); emits(%s[0]); emits(%s[1]); emits(%s[2]);"), ("struct { char *p; int k; } %s[]", '{ { "p", 1 }, { "q", 2 }, { 0 } }', "emit(sizeof(%s)); emits(%s[0].p); emits(%s[1].p); emit(%s[1].k); emit((long) %s[2].p);"),
                       ("struct { char *p; int k; } %s[]", '{ "p", 1, "q", 2, "r" }', "emit(sizeof(%s)); emits(%s[0].p); emits(%s[1].p); emits(%s[2].p); emit(%s[1].k + 10 * %s[2].k);"), ("struct { char a[4]; char *p; char b[2]; } %s[2]", '{ { "abc", "def", "g" }, { "x", "y" } }', "emits(%s[0].a); emits(%s[0].p); emits(%s[1].p); emitb(%s[1].a, 4); emitb(%s[1].b, 2); emitb(%s[0].b, 2);"), ("struct { char a[4]; char *p; char b[2]; } %s[2]", '{ "abc", "def", "g", "x", "y" }', "emits(%s[0].a); emits(%s[0].p); emits(%s[1].p); emitb(%s[1].a, 4); emitb(%s[1].b, 2); emitb(%s[0].b, 2);"),
                       ("char %s[][4]", '{ "abc", "d", { \'e\' }, "fghi" }', "emit(sizeof(%s)); emitb(%s, sizeof(%s));"), ("char %s[2][3]", '{ { "ab" }, "cde" }', "emitb(%s, sizeof(%s));"), ("int *%s", "(int *) L\"xyz\"", "emit(%s[0]); emit(%s[2]); emit(%s[3]);"), ("char *%s[2][2]", '{ "a", "b", "c" }', "emits(%s[0][1]); emits(%s[1][0]); emit((long) %s[1][1]);"), ("char *%s[2][2]", '{ { "a" }, { "b", "c" } }', "emits(%s[0][0]); emit((long) %s[0][1]); emits(%s[1][1]);"), ("struct { char *(*q)[2]; char n; } %s", "{ 0, 'c' }", "emit((long) %s.q + %s.n);")]):
        yield Case(f"lit:{n}", f"dirty(); {{ {t % 'a'} = {init}; static {t % 'l'} = {init}; {use.replace('%s', 'g@')} {use.replace('%s', 'a')} {use.replace('%s', 'l')} }}", f"static {t % 'g@'} = {init};")
    # when initializers run
    yield Case("when:loop", "int i; for (i = 0; i < 3; i++) { int a[3] = { 1, 2 }; static int s[3] = { 1, 2 }; struct { char c; int k[2]; } o = { 5, { i } }; char st[4] = \"ab\"; emit(a[0] + a[1] * 10 + a[2] * 100); emit(s[0] + s[1] * 10 + s[2] * 100); emit(o.c); emit(o.k[0]); emit(o.k[1]); emitb(st, 4); a[0] = a[1] = a[2] = 9; s[0]++; s[2]++; o.c = 1; o.k[0] = o.k[1] = 8; st[2] = st[0] = 'z'; }")
    yield Case("when:order", "int a = 5, b = a + 1, c[2] = { a, b }, *p = &b, d = *p + c[1], e = sizeof(e); emit(a); emit(b); emit(c[0]); emit(c[1]); emit(d); emit(e); { int a = 7, b = a; emit(a); emit(b); }")
    yield Case("when:rec", "emit(r@(4));", "static int r@(int n) { int a[4] = { 1 }; static int c = 10; struct { int x, y; } s = { 2 }; a[n & 3] += n; s.y += n; if (n) r@(n - 1); emit(a[0] + a[1] * 10 + a[2] * 100 + a[3] * 1000); emit(s.x + s.y * 10); return c++; }")
    yield Case("when:goto", "int k = 0; again: { int a[2] = { 3 }; emit(a[0]); emit(a[1]); a[1] = 4; a[0] = k; if (k++ < 2) goto again; } { int i = 0; do { int z = 5; emit(z); z = i; } while (i++ < 2); }")
    yield Case("when:self", "void *p = &p; struct s@ { struct s@ *n; int k; } a = { &a, 3 }, b = { &a, 4 }; emit(p == (void *) &p); emit(a.n == &a); emit(b.n->k); emit(g@.n == &g@); emit(h@[0].n == h@ + 1); emit(h@[1].n == h@); emit(x@.n == &y@);", "static struct l@ { struct l@ *n; int k; } g@ = { &g@, 1 }, h@[2] = { { h@ + 1 }, { h@, 2 } }; static struct l@ y@; static struct l@ x@ = { &y@ }; static struct l@ y@ = { &x@ };")
    yield Case("when:enumsz", "int a[] = { 1, 2, 3 }, b[sizeof(a) / sizeof(a[0])] = { 4 }; static int c[][2] = { 1, 2, 3 }, d[][2] = { { 1 }, { 2 }, { 3 } }; int e[][2][2] = { 1, 2, 3, 4, 5 }; emit(sizeof(a)); emit(sizeof(b)); emit(b[2]); emit(sizeof(c)); emit(c[1][1]); emit(sizeof(d)); emit(d[2][1]); emit(sizeof(e)); emit(e[1][0][0]); emit(e[1][1][1]);")
    # big objects: the zeroed rest, in every alignment
    for n in list(range(1, 40)) + [64, 100, 255, 1000]:
        b, decl = "", ""
        for k in sorted({1, 2, n // 2, n - 1, n} - {0}):
            if k > n: continue
            for ty in ("char", "short", "int", "long"):
                it = ", ".join(str(i + 1) for i in range(k))
                decl += f"static {ty} {ty[0]}{k}_@[{n}] = {{ {it} }}; "
                b += f"emitb({ty[0]}{k}_@, sizeof({ty[0]}{k}_@)); dirty(); {{ char p = 1; {ty} a[{n}] = {{ {it} }}; char q = 2; emitb(a, sizeof(a)); emit(p + q); }} "
        yield Case(f"rest:{n}", b, decl)


def main():
    rep = Report("C13", LEVEL, "distinct = distinct logs of object contents", ["only the first member of a union is compared; padding is not"])
    defs = []
    for t in types(): t.defs(defs)
    # types() makes new tags each time it runs: restart the numbering
    Ty.n = 0
    defs = []
    ts = list(types())
    for t in ts: t.defs(defs)
    Ty.n = 0
    cs = list(cases(rep))
    Engine(rep, prologue=PRO + "\n".join(defs)).go(cs, batch=40)
    return rep.finish()
