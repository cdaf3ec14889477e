"""C09: for every sequence of variadic arguments of the enumeration, caller and callee are compiled by wcc and by gcc and linked in all four
combinations; every argument the callee's traversals deliver must be the same in all of them."""
import itertools
from .. import core
from ..aggr import SC, scalar, struct, union, array, value
from ..core import Report
from ..diff import Engine
from .c08 import Interop, Sig

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of variadic argument sequences and traversals up to a bound, run in all four caller/callee compiler combinations (wcc and gcc) with every delivered value compared"
NOTE = "All sequences up to length 3 over 13 types, after 7 kinds of fixed parameters; every register-exhaustion state followed by every type; every position of va_copy, of a handover to another function and of a restart in sequences of length 6 and 16. Trusts gcc as the ABI."

S = {k: scalar(k) for k in SC}
CLS = {"i": S["i"], "l": S["l"], "d": S["d"], "D": S["D"], "p": S["p"], "U": S["I"],
       "I": struct(S["c"], S["h"]), "C3": struct(array(S["c"], 3)), "II": struct(S["l"], S["i"]), "C11": struct(array(S["c"], 11)), "S": struct(S["f"]), "SS": struct(S["d"], S["f"], S["f"]), "SF": struct(S["f"], S["f"], S["f"]),
       "IS": struct(S["l"], S["d"]), "SI": struct(S["d"], S["i"]), "IF": struct(S["i"], S["f"], S["f"]), "M": struct(S["l"], S["l"], S["c"]), "C17": struct(array(S["c"], 17)), "X": struct(S["D"]), "MD": struct(S["D"], S["i"]), "un": union(S["i"], S["f"]), "ud": union(S["d"], array(S["c"], 9)),
       "C1": struct(S["c"]), "C7": struct(array(S["c"], 7)), "FI": struct(S["f"], S["i"]), "nest": struct(struct(S["f"]), struct(S["d"]))}
INC = "#include <stdarg.h>\n"
FIXED = {"1": ["i"], "p": ["p"], "6": ["i"] * 6, "d8": ["d"] * 8 + ["i"], "d9": ["d"] * 9, "mix": ["c", "d", "l", "f", "h"], "M": ["M"], "IS": ["i", "IS", "II"], "D": ["D"], "7": ["l"] * 7 + ["d"] * 9}
F = dict(CLS, c=S["c"], f=S["f"], h=S["h"])


def get(t, i, ap="ap"):
    """va_arg of one element, logged"""
    return f"{{ {t.decl('v%d' % i)} = va_arg({ap}, {t.pre}); {t.emit('v%d' % i)} }}"


def args(ts, seed=1):
    d, a = "", []
    for i, t in enumerate(ts):
        if t.scalar and i % 2 == 0: a.append(value(t.leaves[0][1], (seed + i) * 31 + 1))
        else:
            d += f"{t.decl(f'a{i}')}; {t.fill(f'a{i}', seed + i)} "
            a.append(f"a{i}")
    return d, ", ".join(a)


def call(fixed, ts, trav, extra="", helper="", ret="long", seed=1):
    """ret f@(fixed..., ...) with the traversal's text"""
    ps = ", ".join(p.decl(f"x{i}") for i, p in enumerate(fixed))
    callee = f"{helper} {ret} f@({ps}, ...) {{ va_list ap, aq; long g0 = 0x1111111111111111l, g1 = 0x2222222222222222l; " + "va_start(ap, x%d); " % (len(fixed) - 1) + trav + " va_end(ap); " + " ".join(p.emit(f"x{i}") for i, p in enumerate(fixed)) + " emit(g0); emit(g1); return 7; }"
    d, a = args(fixed + ts, seed)
    proto = f"{ret} f@({', '.join(p.decl('') for p in fixed)}, ...);"
    again = " ".join(t.emit(f"a{i}") for i, t in enumerate(fixed + ts) if not t.scalar)
    return callee, proto + f" void t@(void) {{ {d} {extra} emit(f@({a})); {again} }}"


def sigs():
    def sig(key, fixed, names, trav=None, **kw):
        fx, ts = [F[x] for x in fixed], [CLS[x] for x in names]
        tv = " ".join(get(t, i) for i, t in enumerate(ts)) if trav is None else trav
        c, m = call(fx, ts, tv, **kw)
        return Sig(key, fx + ts, c, m)
    small = ["i", "l", "d", "D", "II", "SS", "IS", "SI", "M", "S", "I"] if not core.THOROUGH else list(CLS)
    for fk, fx in FIXED.items():
        for x in CLS: yield sig(f"one:{fk}:{x}", fx, [x])
        for x, y in itertools.product(CLS, repeat=2):
            if fk in ("1", "6", "d8", "mix") or core.THOROUGH: yield sig(f"two:{fk}:{x},{y}", fx, [x, y])
    for seq in itertools.product(small, repeat=3): yield sig("three:" + ",".join(seq), ["i"], seq, seed=2)
    # every register exhaustion state, in fixed and in variadic arguments
    for ni, nd, x in itertools.product(range(0, 8), (0, 1, 6, 7, 8, 9) if not core.THOROUGH else range(0, 11), CLS):
        ints = ["i", "l", "p"]
        seq = [ints[k % 3] for k in range(ni)] + ["d"] * nd
        yield sig(f"exh:{ni}:{nd}:{x}", ["i"], seq + [x, "i", "d", x, "l"], seed=ni)
        if nd in (0, 8): yield sig(f"exhf:{ni}:{nd}:{x}", ["l"] * max(ni, 1) + ["d"] * nd, [x, "i", "d", x, "l"], seed=ni)
    # alternating traversals: copies, handover, restart at every position
    for base, nm in ((["i", "d", "l", "SS", "p", "IS"], "a"), (["M", "i", "SF", "D", "d", "C11"], "b"), (["i", "d"] * 8 + ["II"], "c"), (["l"] * 4 + ["II", "i", "II", "l"], "d"), (["d"] * 7 + ["SS", "d", "IS", "l"], "e")):
        ts = [CLS[x] for x in base]
        for k in range(len(base) + 1):
            pre = " ".join(get(t, i) for i, t in enumerate(ts[:k])) + " "
            post = " ".join(get(t, i + k) for i, t in enumerate(ts[k:])) + " "
            postq = " ".join(get(t, i + k, "aq") for i, t in enumerate(ts[k:])) + " "
            postp = " ".join(get(t, i + k, "*ap") for i, t in enumerate(ts[k:])) + " "
            yield sig(f"copy:{nm}:{k}", ["i"], base, pre + "va_copy(aq, ap); " + post + postq + "va_end(aq);")
            yield sig(f"copyfirst:{nm}:{k}", ["i"], base, pre + "va_copy(aq, ap); " + postq + post + "va_end(aq);")
            yield sig(f"restart:{nm}:{k}", ["i"], base, pre + "va_end(ap); va_start(ap, x0); " + " ".join(get(t, i) for i, t in enumerate(ts)))
            yield sig(f"two:{nm}:{k}", ["i", "d"], base, "va_start(aq, x1); " + pre + postq.replace("aq", "aq") if k == 0 else "va_start(aq, x1); " + " ".join(get(t, i) + get(t, i + 50, "aq") for i, t in enumerate(ts)) + "va_end(aq);")
            h = f"static int h@(int n, va_list ap) {{ {post} return n; }} "
            yield sig(f"pass:{nm}:{k}", ["i"], base, pre + f"emit(h@({k}, ap));", helper=h)
            h = f"static int h@(va_list *ap) {{ {postp} return 3; }} "
            # the callee advances the caller's list
            if k < len(base):
                first, rest = get(ts[k], k, "*ap"), " ".join(get(t, i + k + 1) for i, t in enumerate(ts[k + 1:]))
                yield sig(f"addr:{nm}:{k}", ["i"], base, pre + f"emit(h@(&ap)); {rest}", helper=f"static int h@(va_list *ap) {{ {first} return 3; }} ")
                yield sig(f"array:{nm}:{k}", ["i"], base, f"{{ va_list l[3]; struct {{ int k; va_list v; }} o; o.k = 5; va_copy(l[1], ap); va_copy(o.v, ap); " + " ".join(get(t, i, "l[1]") + get(t, i + 60, "o.v") for i, t in enumerate(ts)) + pre + f"emit(o.k); {post} }}")
            # handed over to a function of the other compiler's side
            c, m = call([S["i"]], ts, pre + f"emit(hx@({k}, ap));", helper="int hx@(int, va_list); ")
            yield Sig(f"cross:{nm}:{k}", [S["i"]] + ts, c, f"int hx@(int n, va_list ap) {{ {post} return n + 1; }} " + m)
    # traversal steered by run-time data
    sw = "{ int n = x0; while (n) { switch (n & 3) { case 1: emit(va_arg(ap, int)); break; case 2: emitd(va_arg(ap, double)); break; case 3: { char *z = va_arg(ap, char *); emit((long) z); break; } } n >>= 2; } }"
    for n in range(1, 6 if not core.THOROUGH else 7):
        for seq in itertools.product((1, 2, 3), repeat=n):
            code = sum(v << (2 * i) for i, v in enumerate(seq))
            yield sig("steer:" + "".join(map(str, seq)), ["i"], ["i", "d", "p"], None) if False else steer(seq, code, sw)
    for n in (8, 12, 15): yield steer([1 + (i * i + n) % 3 for i in range(n)], sum((1 + (i * i + n) % 3) << (2 * i) for i in range(n)), sw)
    # promotions of what is passed
    for a in "cChHiIlLfdDp":
        k = "d" if a in "fd" else "i" if a in "cChHi" else a
        t = SC[k][0]
        yield Sig(f"promo:{a}", [], INC + f"void f@(int n, ...) {{ va_list ap; va_start(ap, n); {' '.join(get(S[k], i) for i in range(9))} va_end(ap); }}",
                  f"void f@(int, ...); struct b@ {{ int x : 5; unsigned y : 7; }}; void t@(void) {{ {SC[a][0]} v = {value(a, 9)}, w[2], *p = &v; w[1] = v; " + (f"register {SC[a][0]} z = v; struct b@ b; b.x = -3; b.y = 99; " + ("f@(1, v, *p, w[1], z, (v), v, b.x, b.y, v);" if k == "i" else "f@(1, v, *p, w[1], z, (v), v, v, v, v);")) + " }")
    ex = {"i": ["1 + 2", "'a'", "i++", "i > 2", "!i", "i ? 3 : 4", "sizeof(int) > 2", "(char) 300", "(short) -1", "e1@", "en@", "i, 5"], "d": ["1.5f", "fl", "fl * 2", "fl + i", "i ? fl : 2", "(float) 0.1", "2.5 + i", "-fl"], "l": ["1l", "p - q", "(long) i", "&i - &i", "i + 1l", "-1l", "~0l"], "L": ["sizeof(int)", "~0ul", "1ul << 63"], "p": ["\"abc\" - \"abc\" + p", "p", "&buf[2]", "buf", "buf + 1", "(char *) 0", "i ? p : 0", "p++", "s@.m"]}
    for k, es in ex.items():
        for j, e in enumerate(es):
            if e.startswith('"abc"'): continue
            rel = "if (v0) emits(v0); else emit(0);" if k == "p" else None
            body = " ".join("{ char *v0 = va_arg(ap, char *); if (v0) emits(v0); else emit(0); }" if k == "p" else get(S[k], i) for i in range(7))
            yield Sig(f"expr:{k}:{j}", [], INC + f"void f@(int n, ...) {{ va_list ap; va_start(ap, n); {body} va_end(ap); }}",
                      f"void f@(int, ...); enum en@ {{ e0@, e1@ }}; static struct {{ int k; char m[4]; }} s@; void t@(void) {{ int i = 3; enum en@ en@ = e1@; float fl = 0.7f; static char buf[9] = \"hijklmn\"; char *p = buf + 2, *q = buf; s@.m[0] = 'x'; f@(1, {', '.join(['(' + e + ')'] * 7)}); emit(i); }}")
    # calls through pointers, recursion, libc
    for x in CLS:
        t = CLS[x]
        d, a = args([t, t])
        yield Sig(f"ptr:{x}", [t], INC + f"int f@(char *n, ...) {{ va_list ap; va_start(ap, n); {get(t, 0)} {get(t, 1)} {get(S['d'], 2)} va_end(ap); return 9; }}", f"int f@(char *, ...); void t@(void) {{ int (*fp)(char *, ...) = f@; int (*tb[2])(char *, ...); struct {{ int (*m)(char *, ...); }} o; {d} tb[1] = fp; o.m = fp; emit(fp(\"\", {a}, 1.5)); emit((*fp)(\"\", {a}, 2.5)); emit(tb[1](\"\", {a}, 3.5)); emit(o.m(\"\", {a}, 4.5f)); }}")
        yield Sig(f"retn:{x}", [t], INC + f"{t.pre} f@(int n, ...) {{ va_list ap; {t.decl('r')}; {t.fill('r', 4)} va_start(ap, n); while (n--) r = va_arg(ap, {t.pre}); va_end(ap); return r; }}", f"{t.pre} f@(int, ...); void t@(void) {{ {d} {t.decl('r')}; int n; " + f"r = f@(0, a0); ".replace("a0", "1") + t.emit("r") + f" r = f@(1, {a}); {t.emit('r')} r = f@(2, {a}); {t.emit('r')} r = f@(2, f@(1, {a}), f@(2, {a})); {t.emit('r')} }}")
        yield Sig(f"recur:{x}", [t], INC + f"int f@(int n, ...) {{ va_list ap; int r = n; va_start(ap, n); {get(t, 0)} if (n) r += f@(n - 1, va_arg(ap, {t.pre}), va_arg(ap, {t.pre}), 1.5); else {get(t, 2)} va_end(ap); return r; }}" if False else
                  INC + f"int f@(int n, ...) {{ va_list ap; int r = n; {t.decl('u')}; {t.decl('w')}; va_start(ap, n); u = va_arg(ap, {t.pre}); {t.emit('u')} if (n) r += f@(n - 1, u, 1.5, u); emitd(va_arg(ap, double)); w = va_arg(ap, {t.pre}); {t.emit('w')} {t.emit('u')} va_end(ap); return r; }}",
                  f"int f@(int, ...); void t@(void) {{ {d} emit(f@(3, {a.split(', ')[0] if t.scalar else 'a0'}, 2.5, {a.split(', ')[-1] if t.scalar else 'a1'})); }}")
    fm = {"i": ("%d", "v"), "l": ("%ld", "(v * 1000003l)"), "d": ("%.3f", "(v + 0.25)"), "f": ("%g", "(v + 0.5f)"), "s": ("%s", "\"str\""), "c": ("%c", "('a' + v)"), "D": ("%.2Lf", "(v + 0.75L)"), "x": ("%08x", "(v * 77u)"), "h": ("%hd", "(short) (v - 9)")}
    for n in (1, 2, 3):
        for seq in itertools.product(fm, repeat=n):
            if n == 3 and not core.THOROUGH and len({*seq}) < 3: continue
            fs, vs = " ".join(fm[x][0] for x in seq), ", ".join(fm[x][1] for x in seq)
            yield Sig("printf:" + "".join(seq), [], INC + f"int vsnprintf(char *, unsigned long, const char *, va_list); int f@(char *b, int n, const char *fmt, ...) {{ int r; va_list ap; va_start(ap, fmt); r = vsnprintf(b, n, fmt, ap); va_end(ap); return r; }}", f"int snprintf(char *, unsigned long, const char *, ...); int f@(char *, int, const char *, ...); void t@(void) {{ char b[200]; int v = 5; emit(snprintf(b, 200, \"{fs}\", {vs})); emits(b); emit(f@(b, 200, \"{fs}|{fs}|{fs}\", {vs}, {vs}, {vs})); emits(b); }}")


def steer(seq, code, sw):
    vals = {1: "%d", 2: "%d.5", 3: "(char *) %dl"}
    return Sig("steer:" + "".join(map(str, seq)), [], INC + f"int f@(int x0, ...) {{ va_list ap; va_start(ap, x0); {sw} va_end(ap); return x0; }}",
               f"int f@(int, ...); void t@(void) {{ emit(f@({code}, {', '.join(vals[v] % (i * 7 + 3) for i, v in enumerate(seq))})); }}")


class Variadic(Interop):
    def src(self, sigs, what): return INC + Interop.src(self, sigs, what).replace(INC, "")


def main():
    rep = Report("C09", LEVEL, "distinct = distinct logs of delivered arguments", ["gcc implements the System V ABI"])
    e = Variadic(rep)
    e.__class__.go = Engine.go
    Sig.decls = property(lambda s: " | ".join(t.defs[-1] for t in s.types if t.defs)[:120] + " " + s.callee[:160])
    Sig.body = property(lambda s: "")
    e.go(sigs(), batch=60)
    return rep.finish()
