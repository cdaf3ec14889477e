"""C04: every expression tree up to a number of operators over counting leaves, for every vector of leaf values: which leaves ran, how
often, in which order across sequence points, and the value; and every operator pair and triple without parentheses."""
import itertools
from .. import core
from ..diff import Case, Engine
from ..core import Report
from .c03 import BINOPS, defined

LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of expression trees and of all leaf value vectors, observing evaluation counts, order at sequence points and values, differential against gcc and clang"
NOTE = "All trees of up to 2 operators over the whole operator set and 3 over a representative one (4 and 5 reduced in the thorough tier) with all leaf-value vectors, in value, condition, discarded, argument, return, index and initializer contexts; deep chains up to 60. Order is only observed where C sequences it."

PRO = """
static int cnt[80], seq[80], now, V; static int x0, x1, x2, x3, x4, x5; static int arr[16]; static int *p0, *p1, *p2, *p3, *p4;
static long ly; static char cy; static double dy;
static void reset(int v) { int i; V = v; now = 0; for (i = 0; i < 80; i++) cnt[i] = seq[i] = 0; x0 = 1; x1 = 0; x2 = 3; x3 = -1; x4 = 2; x5 = 7; for (i = 0; i < 16; i++) arr[i] = i * 3 % 7; p0 = arr; p1 = arr + 1; p2 = arr + 2; p3 = arr + 3; p4 = arr + 4; ly = 5; cy = 7; dy = 1.5; }
static void hit(int i) { cnt[i]++; seq[i] = ++now; }
static int I(int i) { hit(i); return (V >> i) & 1 ? i + 2 : 0; }
static long Lo(int i) { hit(i); return (V >> i) & 1 ? -(long) i - 5000000000 : 0; }
static unsigned U(int i) { hit(i); return (V >> i) & 1 ? 4000000000u + i : 0; }
static char Ch(int i) { hit(i); return (V >> i) & 1 ? -3 - i : 0; }
static double Db(int i) { hit(i); return (V >> i) & 1 ? i + 0.5 : 0.0; }
static long double Ld(int i) { hit(i); return (V >> i) & 1 ? i - 2.25L : 0.0L; }
static int *Pt(int i) { hit(i); return (V >> i) & 1 ? arr + i : 0; }
static int g1(int a) { hit(70); return a * 2 + 1; }
static int g2(int a, int b) { hit(71); return a - b * 3; }
static int g3(int a, int b, int c) { hit(72); return a + b * 5 - c * 7; }
static void show(int n) { int i; for (i = 0; i < n; i++) emit(cnt[i]); for (i = 70; i < 73; i++) emit(cnt[i]); emit(x0 + 1000l * x1); emit(x2 + 1000l * x3); emit(x4 + 1000l * x5); emit(ly); emit(cy); emitd(dy); emit(p0 - arr); emit(p1 - arr); emit(p2 - arr); emit(p3 - arr); emitb(arr, sizeof arr); }
static void before(int a, int b) { if (cnt[a] && cnt[b]) emit(seq[a] < seq[b]); }
"""


class N:
    """s: text, leaves: ids, pairs: (a, b) a sequenced before b, flo: has floating type, lv"""
    __slots__ = ("s", "leaves", "pairs", "flo")
    def __init__(self, s, leaves, pairs, flo=False): self.s, self.leaves, self.pairs, self.flo = s, leaves, pairs, flo


INT_ONLY = {"%", "&", "|", "^", "<<", ">>", "~", "idx", "call1", "call2", "call3"}


def combine(op, kids):
    leaves = [l for k in kids for l in k.leaves]
    pairs = [p for k in kids for p in k.pairs]
    flo = any(k.flo for k in kids)
    if flo and op in INT_ONLY: return None
    s = [k.s for k in kids]
    if op in ("&&", "||", ","):
        pairs += list(itertools.product(kids[0].leaves, kids[1].leaves))
        return N(f"({s[0]} {op} {s[1]})", leaves, pairs, kids[1].flo if op == "," else False)
    if op == "?:":
        pairs += list(itertools.product(kids[0].leaves, kids[1].leaves + kids[2].leaves))
        return N(f"({s[0]} ? {s[1]} : {s[2]})", leaves, pairs, kids[1].flo or kids[2].flo)
    if op in ("/", "%"): return N(f"({s[0]} {op} (({s[1]}) | 1))", leaves, pairs, flo) if not flo else None
    if op in ("<<", ">>"): return N(f"((unsigned) {s[0]} {op} (({s[1]}) & 7))", leaves, pairs)
    if op in ("==", "!=", "<", ">", "<=", ">="): return N(f"({s[0]} {op} {s[1]})", leaves, pairs)
    if op == "idx": return N(f"arr[({s[0]}) & 15]", leaves, pairs)
    if op.startswith("call"): return N(f"g{len(s)}({', '.join(s)})", leaves, pairs)
    if op == "=": return N(f"(x5 = {s[0]})", leaves, pairs)
    if op == "c=": return N(f"(cy = {s[0]})", leaves, pairs) if not flo else None
    if op == "+=": return N(f"(ly += {s[0]})", leaves, pairs) if not flo else None
    if op == "(char)": return N(f"((char) {s[0]})", leaves, pairs) if not flo else None
    if op == "(double)": return N(f"((double) {s[0]})", leaves, pairs, True)
    if len(s) == 1: return N(f"({op} {s[0]})", leaves, pairs, flo and op != "!")
    return N(f"({s[0]} {op} {s[1]})", leaves, pairs, flo)


ARITY = {"!": 1, "-u": 1, "~": 1, "?:": 3, "idx": 1, "call1": 1, "call2": 2, "call3": 3, "=": 1, "c=": 1, "+=": 1, "(char)": 1, "(double)": 1}
FULL = ["!", "-u", "~", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||", ",", "?:", "idx", "call1", "call2", "call3", "=", "c=", "+=", "(char)", "(double)"]
REP3 = ["!", "-", "<", "&&", "||", ",", "?:", "call2"]
REP3T = ["!", "~", "+", "-", "*", "<", "==", "&&", "||", ",", "?:", "idx", "call2", "=", "+=", "(char)"]
REP4 = ["!", "-", "&&", "||", "?:"]

TYPEFN = {"i": ("I", False), "l": ("Lo", False), "u": ("U", False), "c": ("Ch", False), "d": ("Db", True), "D": ("Ld", True)}


def shapes(k, ops):
    """Trees with exactly k operators: ('leaf',) or (op, kids...)."""
    if k == 0:
        yield None
        return
    for op in ops:
        n = ARITY.get(op, 2)
        for split in compositions(k - 1, n):
            for kids in itertools.product(*[list(shapes(j, ops)) for j in split]):
                yield (op,) + kids


def compositions(k, n):
    if n == 1:
        yield (k,)
        return
    for i in range(k + 1):
        for r in compositions(k - i, n - 1): yield (i,) + r


def render(t, leaf, ctr):
    if t is None:
        i = ctr[0]
        ctr[0] += 1
        return leaf(i)
    kids = [render(k, leaf, ctr) for k in t[1:]]
    if any(k is None for k in kids): return None
    op = t[0][0] if t[0] == "-u" else t[0]
    return combine(op, kids)


def fnleaf(types):
    def f(i):
        fn, flo = TYPEFN[types[i % len(types)]]
        return N(f"{fn}({i})", [i], [], flo)
    return f


def sideleaf(kind):
    def f(i):
        if i > 4: return None
        k = kind if kind != "mix" else ["post", "pre", "asg", "ptr", "fn"][i % 5]
        return N({"post": f"x{i}++", "pre": f"--x{i}", "asg": f"(x{i} = x{i} * 2 + (V >> {i} & 1))", "ptr": f"*p{i}++", "fn": f"I({i})"}[k], [i] if k == "fn" else [], [])
    return f


def emitter(n): return "emitd" if n.flo else "emit"


def tree_cases(k, ops, types, tag, contexts=("val",)):
    for t in shapes(k, ops):
        n = render(t, fnleaf(types), [0])
        if n is None: continue
        # one object is assigned at most once between sequence points
        if sum(n.s.count(x) for x in ("(x5 =", "(cy =", "(ly +=")) > 1: continue
        if "arr[" in n.s and False: continue
        for c in contexts: yield mk(f"{tag}:{types}:{c}:{n.s}", n, c)


def mk(key, n, c):
    nl = len(n.leaves)
    e = n.s
    body = {"val": f"{emitter(n)}({e});", "if": f"if ({e}) emit(1); else emit(2);", "not": f"if (!{e}) emit(1); else emit(2);", "discard": f"{e};", "while": f"{{ int w = 0; while ({e}) {{ if (w++ > 1) break; }} emit(w); }}",
            "arg": f"emit(g2({'(int) ' if n.flo else ''}{e}, 1));", "idx": f"emit(arr[({'(int) ' if n.flo else ''}{e}) & 15]);", "init": f"{{ {'double' if n.flo else 'long'} q = {e}; {emitter(n)}(q); }}",
            "ret": f"{emitter(n)}(f@());", "and": f"emit(x2 && {e});", "tern": f"emit({e} ? 11 : 12);"}[c]
    decls = f"static {'double' if n.flo else 'long'} f@(void) {{ return {e}; }}" if c == "ret" else ""
    pairs = "".join(f" before({a}, {b});" for a, b in sorted(set(n.pairs)))
    return Case(key, f"int v; for (v = 0; v < {1 << min(nl, 6)}; v++) {{ reset(v); {body} show({nl});{pairs} }}", decls)


def side_cases():
    ops = ["!", "-", "+", "*", "<", "&&", "||", ",", "?:", "call2", "idx", "=", "+="]
    for kind in ("post", "pre", "asg", "ptr", "mix"):
        for k in (1, 2):
            for t in shapes(k, ops):
                n = render(t, sideleaf(kind), [0])
                if n is None or sum(n.s.count(x) for x in ("(x5 =", "(ly +=")) > 1: continue
                # the number of vectors: only V matters for asg
                nl = 3
                yield Case(f"side:{kind}:{n.s}", f"int v; for (v = 0; v < 8; v++) {{ reset(v); emit({n.s}); show({nl}); reset(v); if ({n.s}) emit(1); show({nl}); reset(v); {n.s}; show({nl}); }}")


def flat_cases():
    cand = [(7, 2, 3, 1), (1, 0, 2, 3), (0, 1, 1, 2), (5, 3, 0, 4), (2, 2, 1, 0), (0, 0, 5, 1), (9, 4, 2, 2)]

    def emit_flat(fmt, key):
        rows = [c for c in cand if defined(fmt.format(*c)) is not None]
        if not rows: return None
        body = "".join(f" a = {a}; b = {b}; c = {c}; d = {d}; emit({fmt.format('a', 'b', 'c', 'd')}); if ({fmt.format('a', 'b', 'c', 'd')}) emit(1);" for a, b, c, d in rows)
        return Case("flat:" + key, "int a, b, c, d;" + body)
    for o1 in BINOPS:
        for o2 in BINOPS:
            fs = [f"{{0}} {o1} {{1}} {o2} {{2}}", f"{{0}} {o1} {{1}} ? {{2}} {o2} {{3}} : {{0}} {o2} {{1}}", f"- {{0}} {o1} ~ {{1}} {o2} ! {{2}}"]
            fs += [f"{{0}} {o1} {{1}} {o2} {{2}} {o3} {{3}}" for o3 in (BINOPS if core.THOROUGH else BINOPS[(BINOPS.index(o1) + BINOPS.index(o2)) % 4::4])]
            for f in fs:
                c = emit_flat(f, f.format("a", "b", "c", "d"))
                if c: yield c
    # assignment, comma, conditional, postfix and unary, casts, sizeof
    for i, (s) in enumerate(["a = b = c", "a = b += c", "a += b -= c", "a ? b : c ? d : a", "a ? b ? c : d : a", "a = b ? c : d", "a || b ? c : d", "a, b, c", "a ? b, c : d", "a = (b, c)", "a = b == c", "a = b && c || d", "a += b << c", "a -= b - c", "a = -b - -c", "a = - - b",
                             "a = !b + !c", "a = ~b & c", "- a++", "-a--", "! a++ + b", "a++ + b", "a++ + ++b", "a-- - --b", "a+++b", "a - -b", "a - - - b", "(char) a + 300", "(char) (a + 300)", "-(char) a", "(char) -a * 100", "sizeof a + b", "sizeof(a) * b", "sizeof -a", "sizeof(char) * a", "*&a + *&b", "*&a * *&b", "&a == &a", "&a + 1 == &a + 1",
                             "!&a", "a = b, c", "a ? b : (c, d)", "a = b = c = d = 9", "a *= b + c", "a |= b & c ^ d", "a ^= b | c", "a <<= b > c", "a >>= b & 1", "a %= b + 5", "a /= b + 7", "(a = b) + (c = d)", "(a, b) + (c, d)", "a - (b - c)", "a - b - c", "a ? b : c, d", "a < b < c", "a == b == c", "a > b == c < d", "a & b == c", "a | b && c", "a ^ b || c", "! a == b", "~ a == b", "- a < b", "a * - b", "a & ~ b", "a && ! b", "sizeof a == 4", "sizeof (int) - 1", "(int) 1.5 + a", "(unsigned char) 257 + a", "(a)", "((a) + (b))", "(int) (a) + b", "(long) -1 > 0", "(unsigned) -1 > 0", "a ? (b) : (c)"]):
        yield Case("flat:" + s, "".join(f"int a = {w}, b = {x}, c = {y}, d = {z}; emit({'(' + s + ')' if ',' in s else s}); emit(a); emit(b); emit(c); emit(d); {{ {s}; emit(a); emit(b); emit(c); emit(d); }} if ({s}) emit(77); emit(a); emit(b);".join(["{ ", " }"]) for w, x, y, z in cand))
    # postfix chains
    for s in ["s.a", "p->a", "p->n->a", "p->n->n->b[1]", "(*p).b[2]", "q[1].b[1]", "q[1].n->a", "*q[0].b", "*p->b", "&p->b[1] - p->b", "p->b[p->a & 1]", "(&s)->a", "*&s.a", "q->b[1]", "(q + 1)->a", "*(q + 1)->b", "(*(q + 1)).a", "-p->a", "!p->a", "p->a++", "++p->a", "p->a++ + s.b[0]", "p->b[1]--", "*p->b + 1", "(*p->b)++", "*pp[0]->b", "pp[1]->a", "(*pp)->a", "(**pp).a", "fp(3)",
              "(*fp)(4)", "(**fp)(5)", "tab[1](6)", "(*tab[0])(7)", "tab[p->a & 1](2)", "gs().a", "gp()->a", "gp()->b[2]", "*gp()->b", "1[p->b]", "(p->a)", "\"abc\"[1]", "*\"abc\"", "*(\"abc\" + 2)", "sizeof \"abc\"", "m[1][2]", "*m[1]", "**m", "*(*(m + 1) + 1)", "(*(m + 1))[2]", "m[1] - m[0]", "&m[1][2] - &m[0][0]", "&m[1] - m", "sizeof m[1]", "sizeof *p", "sizeof p->b", "-m[1][1]", "m[1][1]++", "++m[1][m[0][1] & 1]"]:
        yield Case("postfix:" + s, f"struct W s, *p = &s, q[2], *pp[2]; int m[2][3]; int (*fp)(int) = h1; int (*tab[2])(int); int i, j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) m[i][j] = i * 10 + j; tab[0] = h1; tab[1] = h2; s.a = 4; s.n = &s; for (i = 0; i < 3; i++) s.b[i] = i + 20; q[0] = s; q[1] = s; q[1].a = 9; q[1].b[1] = 33; q[0].n = q + 1; pp[0] = q; pp[1] = &s; gw = s; "
                                   f"emit({s}); emit({s}); emit(s.a); emitb(s.b, 12); emitb(m, sizeof m); if ({s}) emit(5);")


def chain_cases():
    for op in ["+", "-", "*", "&", "|", "^", "<", "==", "&&", "||", ","]:
        for n in ((2, 3, 5, 8, 13, 30, 60) if not core.THOROUGH else range(2, 61)):
            for left in (True, False):
                for lf in ("I({})", "arr[{} & 15]", "x{m}", "{}"):
                    L = [lf.format(i, m=i % 6) for i in range(n)]
                    e = L[0]
                    if left:
                        for x in L[1:]: e = f"({e} {op} {x})"
                    else:
                        e = L[-1]
                        for x in reversed(L[:-1]): e = f"({x} {op} {e})"
                    seqn = " ".join(f"before({i}, {i + 1});" for i in range(n - 1)) if op in ("&&", "||", ",") and lf[0] == "I" else ""
                    yield Case(f"chain:{op}:{n}:{'left' if left else 'right'}:{lf}", f"int v; for (v = -1; v < 4; v++) {{ reset(v == 3 ? 0x55555555 : v == 2 ? 0x7ffffffe : v); emit({e}); show({n}); {seqn} }}")
    def balanced(d, ctr, op):
        if not d:
            ctr[0] += 1
            return f"I({ctr[0] - 1})"
        return f"({balanced(d - 1, ctr, op)} {op} {balanced(d - 1, ctr, op)})"
    for op in ["+", "-", "*", "&", "|", "^", "<", "==", "&&", "||", ","]:
        for d in range(1, 7):
            e = balanced(d, [0], op)
            yield Case(f"balanced:{op}:{d}", f"int v; for (v = -1; v < 4; v++) {{ reset(v == 3 ? 0x55555555 : v == 2 ? 0x7ffffffe : v); emit({e}); show({1 << d}); }}")
    for n in (1, 2, 5, 10, 30, 60):
        e = "I(0)"
        for i in range(n): e = f"g2({e}, {i})" if i % 2 else f"g3(1, {e}, arr[{i} & 15])"
        yield Case(f"nestcall:{n}", f"int v; for (v = 0; v < 2; v++) {{ reset(v); emit({e}); show(1); }}")
        e = "I(0)"
        for i in range(n): e = f"({e} ? I({i}) : I({i + 1}))"
        yield Case(f"nesttern:{n}", f"int v; for (v = 0; v < 5; v++) {{ reset(v * 0x1357); emit({e}); show({min(n + 1, 60)}); }}")
        e = "I(0)"
        for i in range(n): e = f"(I({i}) ? I({i + 1}) : {e})"
        yield Case(f"nesttern2:{n}", f"int v; for (v = 0; v < 5; v++) {{ reset(v * 0x1357); emit({e}); show({min(n + 1, 60)}); }}")
        yield Case(f"unary:{n}", "reset(1); " + " ".join(f"emit({' '.join((op,) * n)} I(0));" for op in "-~!") + f" emit({'(' * n}I(0){')' * n}); emit({'*&' * n}x2); show(1);")
        yield Case(f"casts:{n}", "reset(1); emit(" + "".join("(%s) " % ["char", "long", "unsigned short", "int", "double", "unsigned char"][i % 6] for i in range(n)) + "I(0)); show(1);")


def cases():
    yield from flat_cases()
    yield from chain_cases()
    ctx1 = ("val", "if", "not", "discard", "while", "arg", "idx", "init", "ret", "and", "tern")
    for types in ("i", "l", "u", "c", "d", "D", "ild", "ciu", "dli"):
        yield from tree_cases(1, FULL, types, "t1", ctx1)
    for i, types in enumerate(("i", "ild", "cul", "dil", "Dci", "luc")):
        yield from tree_cases(2, FULL, types, "t2", (("val",) if not core.THOROUGH else ctx1) if types != "i" else ctx1 if core.THOROUGH else ("val", "if", "discard", "ret"))
    yield from side_cases()
    yield from tree_cases(3, REP3, "i", "t3", ("val",) if not core.THOROUGH else ("val", "if", "discard"))
    if core.THOROUGH:
        yield from tree_cases(3, REP3T, "i", "t3", ("val", "if"))
        yield from tree_cases(3, REP3, "ild", "t3")
        yield from tree_cases(4, REP4, "i", "t4", ("val", "if"))
        yield from tree_cases(5, ["&&", "||", "!"], "i", "t5", ("val", "if"))


PRO2 = """struct W { int a; int b[3]; struct W *n; }; static struct W gw;
static int h1(int a) { return a + 1; } static int h2(int a) { return a * 2; }
static struct W gs(void) { return gw; } static struct W *gp(void) { return &gw; }
"""


def main():
    rep = Report("C04", LEVEL, "distinct = distinct sequences of observed counts, orders and values over all leaf-value vectors",
                 ["operand order between unsequenced operands is not observed, as C leaves it open", "gcc and clang implement C where they agree"])
    Engine(rep, PRO + PRO2).go(cases(), batch=150)
    return rep.finish()
