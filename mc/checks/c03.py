"""C03: constant expressions: all expression trees up to a size over typed leaves, in every context that needs a constant, against gcc; UB-free
by construction (the model in ctypes_ evaluates each tree)."""
from .. import core, ctypes_ as ct
from ..ctypes_ import BINOPS, cname, lit, wrap
from ..diff import Case, Engine
from ..core import Report

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of constant expression trees in every constant context, differential against gcc and clang"
NOTE = "All trees up to two binary operators over a typed leaf alphabet (deeper ones in the thorough tier), each in initializers, array sizes, case labels, enumerators and bit-field widths. Values cross-checked by a Python model of C89 arithmetic. Trusts gcc and clang where they agree."

TYPES = ["sc", "uc", "ss", "us", "si", "ui", "sl", "ul"]


class X:
    __slots__ = ("s", "t", "v")
    def __init__(self, s, t, v): self.s, self.t, self.v = s, t, v


def leaves():
    out = []
    for s, t, v in [("0", "si", 0), ("1", "si", 1), ("(-1)", "si", -1), ("2", "si", 2), ("7", "si", 7), ("(-8)", "si", -8), ("2147483647", "si", 2147483647), ("(-2147483647-1)", "si", -2147483648),
                    ("0u", "ui", 0), ("1u", "ui", 1), ("3000000000u", "ui", 3000000000), ("4294967295u", "ui", 4294967295), ("0x80000000", "ui", 1 << 31), ("5l", "sl", 5), ("(-3l)", "sl", -3), ("4294967296", "sl", 1 << 32),
                    ("9223372036854775807l", "sl", (1 << 63) - 1), ("1ul", "ul", 1), ("18446744073709551615ul", "ul", (1 << 64) - 1), ("0x8000000000000000", "ul", 1 << 63), ("'a'", "si", 97), ("'\\377'", "si", -1),
                    ("sizeof(int)", "ul", 4), ("sizeof(struct P)", "ul", 16), ("EC", "si", -5), ("((signed char) 200)", "sc", -56), ("((unsigned char) 300)", "uc", 44), ("((short) 40000)", "ss", -25536),
                    ("((unsigned short) -1)", "us", 65535), ("((int) 2.9)", "si", 2), ("((long) -1.5)", "sl", -1), ("33", "si", 33), ("63", "si", 63)]:
        out.append(X(s, t, v))
    return out


def binary(op, a, b):
    v = ct.evaluate(op, a.v, a.t, b.v, b.t)
    if v is None:
        if op == "&&" and not a.v: v = 0
        else: return None
    if op == "<<" and ct.signed(ct.promote(a.t)) and (a.v < 0): return None
    if op == "<<" and ct.signed(ct.promote(a.t)) and (a.v << b.v) > ct.hi(ct.promote(a.t)): return None
    return X(f"({a.s} {op} {b.s})", ct.result_type(op, a.t, b.t), v)


def unary(op, a):
    t = ct.promote(a.t)
    if op == "!": return X(f"(!{a.s})", "si", int(not a.v))
    if op == "-":
        if ct.signed(t) and a.v == ct.lo(t): return None
        return X(f"(- {a.s})", t, wrap(-a.v, t))
    if op == "~": return X(f"(~{a.s})", t, wrap(~a.v, t))
    return X(f"(+{a.s})", t, wrap(a.v, t))


def cast(t, a): return X(f"(({cname(t)}) {a.s})", t, wrap(a.v, t))


def tern(c, a, b):
    t = ct.common(a.t, b.t)
    return X(f"({c.s} ? {a.s} : {b.s})", t, wrap(a.v if c.v else b.v, t))


def level1():
    L = leaves()
    for a in L:
        for op in "-~!+":
            x = unary(op, a)
            if x: yield x
        for t in TYPES: yield cast(t, a)
        for b in L:
            for op in BINOPS:
                x = binary(op, a, b)
                if x: yield x
    few = L[::3]
    for c in (L[0], L[1], L[12], L[18]):
        for a in L:
            for b in few: yield tern(c, a, b)
    # unevaluated operands
    for s, t, v in [("(0 && 1 / 0)", "si", 0), ("(1 || 1 / 0)", "si", 1), ("(1 ? 2 : 1 / 0)", "si", 2), ("(0 ? 1 % 0 : 3u)", "ui", 3), ("(0 && (1 || 2))", "si", 0), ("(1 || (0 && 2))", "si", 1), ("(1 ? 0 ? 1 : 2 : 3)", "si", 2),
                    ("(0 ? 1 : 0 ? 2 : 3)", "si", 3), ("(1 ? 5, 0 : 0)", None, 0)]:
        if t: yield X(s, t, v)


def level2():
    L = leaves()
    l2 = [L[i] for i in (1, 2, 3, 5, 6, 7, 9, 11, 13, 14, 16, 18, 21, 23, 25, 28)]
    if not core.THOROUGH: l2 = l2[::2] + [l2[3]]
    ones = []
    for a in l2:
        for b in l2:
            for op in BINOPS:
                x = binary(op, a, b)
                if x: ones.append(x)
        for op in "-~!":
            x = unary(op, a)
            if x: ones.append(x)
        for t in ("sc", "uc", "us", "si", "ui", "sl", "ul"): ones.append(cast(t, a))
    k = 0
    step = 1 if core.THOROUGH else 7
    for x in ones:
        for a in l2:
            for op in BINOPS:
                for y in (binary(op, x, a), binary(op, a, x)):
                    k += 1
                    if y and k % step == 0: yield y
        for op in "-~!":
            y = unary(op, x)
            if y: yield y
        for t in ("sc", "us", "si", "ui", "ul"):
            k += 1
            if k % 3 == 0 or core.THOROUGH: yield cast(t, x)


# precedence and associativity, without parentheses; the model parses them with C's grammar to leave out undefined behaviour
PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}


def defined(s):
    """The value of a flat expression of int operands, or None where it is undefined."""
    toks, pos = s.split(), [0]

    def prim():
        t = toks[pos[0]]
        pos[0] += 1
        if t in "-~!":
            x = prim()
            return None if x is None else {"-": -x, "~": ~x, "!": int(not x)}[t]
        return int(t)

    def expr(level):
        x = prim()
        while pos[0] < len(toks) and toks[pos[0]] in PREC and PREC[toks[pos[0]]] >= level:
            op = toks[pos[0]]
            pos[0] += 1
            y = expr(PREC[op] + 1)
            if op == "&&": x = 0 if x == 0 else None if x is None or y is None else int(bool(y))
            elif op == "||": x = None if x is None else 1 if x else None if y is None else int(bool(y))
            elif x is None or y is None: x = None
            else:
                r = binary(op, X("", "si", x), X("", "si", y))
                x = r.v if r else None
        return x

    def tern():
        c = expr(0)
        if pos[0] < len(toks) and toks[pos[0]] == "?":
            pos[0] += 1
            a = tern()
            pos[0] += 1
            b = tern()
            return None if c is None else a if c else b
        return c
    return tern()


def flat():
    L = ["7", "2", "3", "1"]
    if core.THOROUGH: L += ["0"]
    def go():
        for a in L[:2]:
            for o1 in BINOPS:
                for b in L:
                    for o2 in BINOPS:
                        for c in L[2:]:
                            yield f"{a} {o1} {b} {o2} {c}"
        for o1 in BINOPS:
            for o2 in BINOPS:
                yield f"1 {o1} 2 ? 3 {o2} 1 : 4 {o2} 2"
                yield f"- 5 {o1} ~ 2 {o2} ! 0 + 1"
                for o3 in BINOPS: yield f"6 {o1} 3 {o2} 2 {o3} 1"
    for s in go():
        if defined(s) is not None: yield s


FLT = ["0.0", "1.5", "-2.25f", "3.0f", "1e10", "0.1", "0.1f", "1.0L", "2", "-3", "7u", "10000000000", "18446744073709551615ul", "'a'", "1e30f", "0.1L"]


def fp():
    for a in FLT:
        for b in FLT:
            if "." not in a + b and "e" not in a + b: continue
            for op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                if op == "/" and b == "0.0" and "." not in a and "e" not in a: pass
                yield f"({a} {op} {b})"
            for c in ("0", "1", "0.5", "0.0"): yield f"({c} ? {a} : {b})"
        for op in "-!+": yield f"({op} {a})"
        for t in ("float", "double", "long double"): yield f"(({t}) {a})"


ADDR = ["&ga", "&gs", "&gs.b", "&gs.in.y", "gr + 2", "&gr[3]", "2 + gr", "gr + 5 - 3", "&gr[4] - 1", "gs.v", "gs.v + 1", "&gs.v[2]", "&gp[1]", "&gp[1].b", "&gp[2].v[1]", "gm[1]", "&gm[1][2]", "gm + 1", "*gm + 1", "*(gm + 1) + 2", "fn", "&fn", "(char *) &gs + 8",
        "(long) 0 + (char *) gr", "\"hello\"", "\"hello\" + 2", "&\"hello\"[1]", "(void *) 0", "0", "(int *) 0 + 3", "(char *) gr + sizeof(int)", "&((struct S *) 0)->b", "&((struct S *) 0)->v[2]", "&((struct S *) 8)->in.y", "(struct S *) gp + 1",
        "(&gs)->v", "&(&gs)->in", "&(*gp).b", "&*gr", "&gr[2] + 1", "gr + (1 ? 2 : 3)", "gr + (2 > 1)", "1 ? gr : gr + 1", "0 ? gr : gr + 1", "(1 ? &gs : 0)", "gr + -(-2)", "&gp[0] + 1", "&(gp + 1)->c", "(long *) &gs.in.y", "(char *) (gp + 2) - 4", "&gr[sizeof(short)]", "L\"wide\"", "&gc[5]", "gc + 'b' - 'a'"]
OFFS = ["(long) &((struct S *) 0)->b", "(long) &((struct S *) 0)->v[1]", "(int) (long) &((struct S *) 0)->in.y", "(unsigned long) &((struct S *) 0)->in + 1", "(long) &((struct S *) 0)->v[2] - (long) &((struct S *) 0)->v[0]", "sizeof(((struct S *) 0)->v)", "sizeof(gs.in)", "sizeof gr / sizeof gr[0]", "sizeof(gm[0])", "sizeof(*gm)",
        "sizeof(int [3])", "sizeof(char *)", "sizeof(struct S)", "sizeof \"abc\"", "sizeof('a')", "sizeof(1 ? 1 : 2l)", "sizeof(gr + 1)", "sizeof(long double)", "sizeof(union U)", "sizeof(fn())", "sizeof(int (*)(void))", "sizeof(int (*)[4])", "sizeof(enum E)", "sizeof((char) 1)", "sizeof(-(char) 1)", "sizeof(gc)", "sizeof(gs.b)", "sizeof(1.0f)", "sizeof(1.0f + 1)",
        "sizeof(1.0f * 2.0)", "sizeof(!1.0)", "sizeof((char) 1 + (char) 1)", "sizeof(1u + 1l)", "sizeof(L'a')", "sizeof L\"ab\""]

PRO = """enum E { EC = -5, ED };
struct P { int a; long b; };
struct I { char x; int y; };
struct S { char a; int b; char c; struct I in; int v[4]; };
union U { int u; char c[6]; };
static struct S gs; static struct S gp[3]; static int gr[10]; static int gm[3][4]; static int ga; static union U gi; static char gc[10];
static int fn(void) { return 1; }
"""


def cases():
    ints = list(level1()) + list(level2())
    n = 40
    for k in range(0, len(ints), n):
        g = ints[k:k + n]
        # static initializers
        dec = f"static long a@[] = {{{', '.join(x.s for x in g)}}};\n" if k // n % 3 else "".join(f"static long a@_{i} = {x.s};\n" for i, x in enumerate(g))
        body = f"int i; for (i = 0; i < {len(g)}; i++) emit(a@[i]);" if k // n % 3 else "".join(f"emit(a@_{i});" for i in range(len(g)))
        body += "".join(f"emit(sizeof({x.s}));" for x in g)
        exp = "".join(f"if ({'a@[%d]' % i if k // n % 3 else 'a@_%d' % i} != (long) {lit(wrap(x.v, 'sl'), 'sl')}) emit({1000 + i});" for i, x in enumerate(g))
        yield Case(f"init:{k}", body + exp, dec)
        # array sizes, case labels, enumerators, bit-field widths; the expression itself where its value allows, otherwise reduced
        dec, body = "", ""
        for i, x in enumerate(g):
            e = x.s if 0 < x.v < 3000 else f"((({x.s}) & 15) + 1)"
            dec += f"static char z@_{i}[{e}];\n"
            e2 = x.s if 0 <= x.v < 1 << 31 or -(1 << 31) <= x.v < 0 else f"(int) {x.s}"
            dec += f"enum N@_{i} {{ Q@_{i} = {e2}, R@_{i} = (int) (({x.s}) & 255), T@_{i} }};\n"
            e3 = x.s if 1 <= x.v <= 32 else f"((({x.s}) & 15) + 1)"
            dec += f"struct B@_{i} {{ unsigned f : {e3}; }};\n"
            body += f"emit(sizeof(z@_{i})); emit(Q@_{i}); emit(R@_{i}); emit(T@_{i}); {{ struct B@_{i} b; b.f = -1; emit(b.f); }}\n"
        yield Case(f"size:{k}", body, dec)
        dec, seen = "", set()
        vals = []
        dec = "static int s@(long x) { switch (x) {\n"
        for i, x in enumerate(g):
            v = wrap(x.v, "sl")
            if v in seen: continue
            seen.add(v)
            vals.append(v)
            dec += f"case {x.s}: return {i};\n"
        dec += f"default: return -1; }} }}\nstatic long v@[] = {{{', '.join(lit(v, 'sl') for v in vals)}}};\n"
        yield Case(f"case:{k}", f"int i; for (i = 0; i < {len(vals)}; i++) emit(s@(v@[i])); emit(s@(123456789));", dec)
    fl = list(flat())
    for k in range(0, len(fl), 60):
        g = fl[k:k + 60]
        yield Case(f"flat:{k}", "".join(f"emit({x}); emit(a@[{i}]);" for i, x in enumerate(g)), f"static int a@[] = {{{', '.join(g)}}};\n")
    # floating point
    fs = list(fp())
    for k in range(0, len(fs), 40):
        g = fs[k:k + 40]
        for t, em in (("float", "emitf"), ("double", "emitd"), ("long double", "emitld")):
            yield Case(f"fp:{t}:{k}", "".join(f"{em}(a@[{i}]);" for i in range(len(g))) + "".join(f"emit(sizeof({x}));" for x in g), f"static {t} a@[] = {{{', '.join(g)}}};\n")
    for a in FLT:
        for t in TYPES:
            try: v = int(float(a.rstrip("fLul"))) if a != "'a'" else 97
            except ValueError: continue
            if not ct.lo(t) <= v <= ct.hi(t) or a.startswith("184") and t != "ul": continue
            yield Case(f"fpint:{t}:{a}", f"emit(a@); emit(b@); emit(c@[0]); emit(sizeof(z@));", f"static {cname(t)} a@ = {a}; static long b@ = ({cname(t)}) {a}; static {cname(t)} c@[2] = {{ {a} }}; static char z@[((({cname(t)}) {a}) & 7) + 1];\n")
    # address constants
    for k, a in enumerate(ADDR):
        for t in ("void *", "char *", "long"):
            if t == "long" and ("\"" in a or True): continue
            ini = f"({t}) ({a})" if a not in ("fn", "&fn", "0") else a if a == "0" else f"({t}) {a}"
            str_ = "\"" in a
            if str_: obs = "emit(*(char *) p@ ); emit(((char *) q@[1])[0]);"
            elif a in ("fn", "&fn"): obs = "emit(p@ == (void *) fn); emit(q@[1] == (void *) fn);"
            else: obs = "emit((long) p@ - B); emit((long) q@[1] - B); emit((long) s@.p - B); emit(s@.z); emit(q@[0] == 0); emit(r@ == p@);"
            base = "0" if a in ("0", "(void *) 0", "(int *) 0 + 3") or "(struct S *) 0" in a or "(struct S *) 8" in a else None
            if base is None:
                for b in ("gs", "gp", "gr", "gm", "gi", "gc", "ga"):
                    if b in a: base = f"(long) &{b}"
            yield Case(f"addr:{t}:{a}", obs.replace("- B", f"- {base}"), f"static {t} p@ = {ini}; static {t} q@[2] = {{ 0, {ini} }}; static struct {{ char c; {t} p; int z; }} s@ = {{ 1, {ini}, 77 }}; static {t} r@ = {ini};\n")
        if not "\"" in a and a not in ("fn", "&fn"):
            yield Case(f"local:{a}", f"void *p; p = {a}; emit((long) p - {base});")
    for a in OFFS:
        yield Case(f"off:{a}", "emit(p@); emit(sizeof(z@)); emit(%s); { switch (%s) { case %s: emit(1); break; default: emit(2); } }" % (a, a, a), f"static long p@ = {a}; static char z@[({a}) + 1];\n")


def main():
    rep = Report("C03", LEVEL, "expression tree x constant context. Non-trivial: distinct sequence of observed values.",
                 ["expressions whose value C leaves undefined are excluded by a Python model of C89 arithmetic"])
    e = Engine(rep, prologue=PRO)
    e.go(cases(), batch=40)
    return rep.finish()
