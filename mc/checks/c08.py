"""C08: for every signature of the enumeration, caller and callee are compiled by wcc and by gcc and linked in all four combinations; every
argument as the callee sees it and every return value as the caller sees it must be the same in all of them."""
import itertools, os
from .. import core
from ..aggr import T, SC, scalar, struct, union, array, sort_defs, value
from ..core import Report, run, write
from ..diff import Engine, PRE

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of signatures up to a bound, run in all four caller/callee compiler combinations (wcc and gcc) with every value compared"
NOTE = "All member sequences up to length 3 over 8 scalar types as parameter and result, all register-exhaustion states (0-8 integer x 0-10 SSE registers used) followed by each struct class, all sequences up to length 4 over 9 representative types, and the call forms (pointers, nested, chained, unprototyped, recursive). Trusts gcc as the ABI."


class Sig:
    __slots__ = ("key", "types", "callee", "caller")

    def __init__(self, key, types, callee, caller): self.key, self.types, self.callee, self.caller = key, types, callee, caller


S = {k: scalar(k) for k in SC}


def simple(key, ret, params, form="direct", seed=1):
    """ret f(params...)"""
    ps = ", ".join(p.decl(f"a{i}") for i, p in enumerate(params)) or "void"
    rt = ret.pre if ret else "void"
    body = " ".join(p.emit(f"a{i}") for i, p in enumerate(params))
    body += " " + " ".join(p.fill(f"a{i}", 90 + i) for i, p in enumerate(params))      # parameters are the callee's own copies
    if ret: callee = f"{rt} f@({ps}) {{ {ret.decl('r')}; {ret.fill('r', seed + 50)} {body} return r; }}"
    else: callee = f"void f@({ps}) {{ {body} }}"
    d, a = "", []
    for i, p in enumerate(params):
        if p.scalar and i % 2 == 0: a.append(value(p.leaves[0][1], (seed + i) * 31 + 1))
        else:
            d += f"{p.decl(f'a{i}')}; "
            a.append(f"a{i}")
    fills = " ".join(p.fill(f"a{i}", seed + i) for i, p in enumerate(params) if f"a{i}" in a)
    again = " ".join(p.emit(f"a{i}") for i, p in enumerate(params) if f"a{i}" in a and not p.scalar)
    args = ", ".join(a)
    fn = "f@"
    if form == "pointer":
        d += f"{rt} (*fp)({', '.join(p.decl('') for p in params) or 'void'}) = f@; "
        fn = "(*fp)" if seed % 2 else "fp"
    if ret: call = f"{ret.decl('r')}; {d}{fills} r = {fn}({args}); {ret.emit('r')} {again}"
    else: call = f"{d}{fills} {fn}({args}); {again}"
    proto = f"{rt} f@({', '.join(p.decl('') for p in params) or 'void'});"
    return Sig(key, [t for t in [ret] + list(params) if t], callee, proto + f" void t@(void) {{ {call} }}")


def structs():
    base = "chilfdDp"
    for n in (1, 2, 3):
        for ms in itertools.product(base if n < 3 else "cilfdD", repeat=n): yield struct(*[S[m] for m in ms])
    for n in (4, 5, 6):
        for m in "chifld": yield struct(*[S[m]] * n)
    for a, b in itertools.product("cifd", repeat=2): yield struct(S[a], S[a], S[b], S[b]); yield struct(S[a], S[b], S[b], S[b]); yield struct(S[a], S[b], S[a], S[b])
    for m, ns in (("c", range(1, 34)), ("h", range(1, 10)), ("i", range(1, 7)), ("f", range(1, 7)), ("d", range(1, 4)), ("l", range(1, 4)), ("D", (1, 2))):
        for n in ns: yield struct(array(S[m], n))
    for m in "cifd":
        for k in "cifdlD":
            for n in (1, 2, 3): yield struct(S[k], array(S[m], n)); yield struct(array(S[m], n), S[k])
    for a, b in itertools.product("chilfdD", repeat=2):
        yield union(S[a], S[b])
        yield struct(union(S[a], S[b]), S["i"])
        yield struct(struct(S[a]), S[b])
        yield struct(S[a], struct(S[b], S["f"]))
        yield union(struct(S[a], S[b]), array(S["c"], 3))
    for a, b, c in itertools.product("ifd", repeat=3): yield struct(struct(S[a], S[b]), S[c]); yield struct(S[a], struct(S[b], S[c])); yield struct(array(struct(S[a], S[b]), 2)); yield union(struct(S[a], S[b]), S[c])
    for a in "cifdl": yield struct(struct(struct(S[a]))); yield struct(union(struct(S[a], S["f"]), S["d"]), S["f"])
    for ws in ((3, 5), (1, 31, 1), (7, 9, 16), (32, 32), (5, 27, 33 - 32)): yield struct(*[(S["I"], w) for w in ws]); yield struct(*[(S["i"], w) for w in ws], S["f"]); yield struct(S["d"], *[(S["I"], w) for w in ws])


CLS = {"i": S["i"], "d": S["d"], "f": S["f"], "D": S["D"], "c": S["c"], "p": S["p"],
       "II": struct(S["l"], S["i"]), "SS": struct(S["d"], S["f"], S["f"]), "IS": struct(S["l"], S["d"]), "SI": struct(S["d"], S["i"]), "I": struct(S["c"], S["h"]), "S": struct(S["f"]),
       "SF": struct(S["f"], S["f"], S["f"]), "IF": struct(S["i"], S["f"], S["f"]), "X": struct(S["D"]), "M": struct(S["l"], S["l"], S["c"]), "MD": struct(S["D"], S["i"]), "C3": struct(array(S["c"], 3)), "C9": struct(array(S["c"], 9)), "C11": struct(array(S["c"], 11)), "U": union(S["i"], S["f"])}


def sigs():
    # 1. every type alone, as parameter and as result
    for k in SC: yield simple(f"scalar:{k}", S[k], [S[k]]); yield simple(f"scalar2:{k}", S[k], [S[k]] * 2, "pointer"); yield simple(f"scalar9:{k}", S[k], [S[k]] * 9)
    for s in structs():
        yield simple(f"one:{s.name}", s, [s])
        yield simple(f"mid:{s.name}", s, [S["i"], s, S["d"], s, S["f"], S["c"]], seed=2)
        yield simple(f"tail:{s.name}", s, [S["i"]] * 5 + [S["d"]] * 7 + [s, S["l"], S["f"], s], "pointer", seed=3)
    # 2. every register exhaustion state
    for ni in range(0, 8):
        for nd in range(0, 10):
            if not core.THOROUGH and nd not in (0, 1, 5, 6, 7, 8, 9) and ni not in (4, 5, 6): continue
            for cn in ("i", "d", "D", "II", "SS", "IS", "SI", "I", "S", "SF", "M", "C9", "X", "U"):
                ps = [S["l"]] * ni + [S["d"]] * nd + [CLS[cn], S["i"], S["f"], CLS[cn], S["c"]]
                yield simple(f"exh:{ni}:{nd}:{cn}", S["l"], ps, seed=ni + nd)
                if nd in (0, 8): yield simple(f"exhr:{ni}:{nd}:{cn}", CLS["M"], ps, seed=ni + nd)
    # 3. all sequences
    reps = ["i", "d", "D", "c", "II", "SI", "SF", "M", "C3"]
    for n in (2, 3, 4):
        for seq in itertools.product(reps if n < 4 or core.THOROUGH else ["i", "d", "D", "IS", "SF", "M"], repeat=n):
            yield simple("seq:" + ",".join(seq), S["i"] if n < 4 else None, [CLS[x] for x in seq], seed=n)
    for ret in CLS:
        for seq in itertools.product(CLS, repeat=2 if core.THOROUGH else 1): yield simple(f"ret:{ret}:" + ",".join(seq), CLS[ret], [CLS[x] for x in seq], "pointer")
    for a, b in itertools.product("chilfdp", repeat=2):
        yield simple(f"alt:{a}{b}", S[a], [S[a], S[b]] * 7)
    yield from forms()


def forms():
    for cn, t in CLS.items():
        ty = t.pre
        e = lambda v: t.emit(v)
        # results of calls as arguments, chains, results used directly
        cal = f"{ty} f@({t.decl('a')}, int n) {{ {e('a')} emit(n); {t.decl('r')}; {t.fill('r', 5)} if (n & 1) return a; return r; }} {ty} g@(int n) {{ {t.decl('r')}; {t.fill('r', 9)} emit(n); return r; }} int h@({t.decl('a')}, {t.decl('b')}, double d, {t.decl('c')}) {{ {e('a')} {e('b')} emitd(d); {e('c')} return 5; }}"
        pro = f"{ty} f@({t.decl('')}, int); {ty} g@(int); int h@({t.decl('')}, {t.decl('')}, double, {t.decl('')}); "
        def case(name, body, extra=""): return Sig(f"form:{cn}:{name}", [t], cal, pro + extra + f" void t@(void) {{ {t.decl('r')}; {t.decl('s')}; int n = 3; {t.fill('r', 11)} {t.fill('s', 12)} {body} }}")
        yield case("nest", f"s = f@(g@(1), 1); {e('s')} s = f@(f@(g@(2), 1), 2); {e('s')}")
        yield case("nest3", f"emit(h@(g@(1), f@(g@(2), 3), 2.5, f@(r, 1)));")
        yield case("self", f"r = f@(r, 1); {e('r')} r = f@(r, 2); {e('r')}")
        yield case("argexpr", f"emit(h@(n ? r : s, (n++, s), n + 0.5, r)); emit(n);" if t.scalar else f"{t.ptr('p')} = &s; emit(h@(*p, r, n, *(n ? &r : p)));")
        yield case("global", f"gl@ = f@(r, 1); {e('gl@')} {t.ptr('p')} = &gl@; *p = f@(s, 1); {e('gl@')} emit(h@(gl@, *p, 1, gl@));", f"static {t.decl('gl@')};")
        yield case("arr", f"{t.decl('v[3]')}; v[0] = r; v[1] = s; v[2] = f@(v[n - 2], 1); {e('v[2]')} emit(h@(v[0], v[n - 1], n, v[1])); {e('v[0]')}")
        yield case("void", f"f@(r, 1); (void) f@(s, 2); {e('r')}")
        yield case("cond", f"s = n > 2 ? f@(r, 1) : g@(4); {e('s')} s = n < 2 ? f@(r, 1) : g@(4); {e('s')}")
        yield case("fptbl", f"{ty} (*tb[2])({t.decl('')}, int); tb[0] = f@; tb[1] = &f@; s = tb[n & 1](r, 1); {e('s')} s = (*tb[0])(s, 2); {e('s')}")
        yield case("fparg", f"s = ap@(f@, r); {e('s')}", f"static {ty} ap@({ty} (*q)({t.decl('')}, int), {t.decl('x')}) {{ return q(x, 1); }}")
        yield case("fpstruct", f"struct {{ int k; {ty} (*q)({t.decl('')}, int); }} o; o.q = f@; s = o.q(r, 1); {e('s')} s = (&o)->q(s, 2); {e('s')}")
        yield case("spill", f"long q0 = n, q1 = n * 2, q2 = n * 3, q3 = n * 4, q4 = n * 5, q5 = n * 6, q6 = n * 7; double d0 = n, d1 = n * 2; s = f@(r, q0 + q1); {e('s')} emit(q0 + q1 * 2 + q2 * 3 + q3 * 4 + q4 * 5 + q5 * 6 + q6 * 7); emitd(d0 + d1); emit(h@(s, r, d0 * d1, s)); emit(q0 - q1 - q2 - q3 - q4 - q5 - q6); emitd(d0 - d1);")
        if not t.scalar:
            l0, k0 = t.leaves[0][0], t.leaves[0][1]
            yield case("member", f"{SC[k0][1]}({'(long) ' if k0 == 'p' else ''}f@(r, 1){l0});" if "[" not in l0 else "emit(0);")
            yield case("nested", f"struct {{ int a; {t.decl('b')}; char c; }} o; o.a = 1; o.c = 2; o.b = f@(r, 1); {e('o.b')} emit(o.a + o.c); emit(h@(o.b, s, o.a, o.b));")
        yield Sig(f"form:{cn}:recur", [t], f"{ty} f@(int n, {t.decl('a')}) {{ {t.decl('b')}; {t.fill('b', 3)} {e('a')} if (!n) return a; b = f@(n - 1, n & 1 ? b : a); {e('b')} {e('a')} return b; }}",
                  f"{ty} f@(int, {t.decl('')}); void t@(void) {{ {t.decl('r')}; {t.fill('r', 1)} r = f@(3, r); {e('r')} }}")
        yield Sig(f"form:{cn}:callback", [t], f"{ty} f@({ty} (*cb)(int, {t.decl('')}), {t.decl('a')}) {{ {t.decl('b')}; b = cb(2, a); {e('b')} return cb(1, b); }}",
                  f"{ty} f@({ty} (*cb)(int, {t.decl('')}), {t.decl('')}); static {ty} cb@(int n, {t.decl('a')}) {{ emit(n); {e('a')} if (n == 2) {{ {t.fill('a', 77)} }} return a; }} void t@(void) {{ {t.decl('r')}; {t.fill('r', 1)} r = f@(cb@, r); {e('r')} }}")
    # unprototyped calls: default promotions
    for seq in itertools.product("chifdl", repeat=2):
        ds = " ".join(f"{SC[k][0]} a{i} = {value(k, i + 5)};" for i, k in enumerate(seq))
        prom = ["int" if k in "ch" else "double" if k == "f" else SC[k][0] for k in seq]
        ps = ", ".join(f"{p} a{i}" for i, p in enumerate(prom))
        yield Sig("unproto:" + "".join(seq), [], f"long f@({ps}) {{ " + " ".join(f"{'emitd' if p == 'double' else 'emit'}(a{i});" for i, p in enumerate(prom)) + " return 7; }", f"long f@(); void t@(void) {{ {ds} emit(f@(" + ", ".join(f"a{i}" for i in range(len(seq))) + ")); }")
    # conversions of arguments to prototyped parameter types and of return values
    for a, b in itertools.product("cChHiIlLfdD", repeat=2):
        yield Sig(f"conv:{a}{b}", [], f"{SC[a][0]} f@({SC[a][0]} x, {SC[a][0]} y) {{ {SC[a][1]}(x); {SC[a][1]}(y); return x; }}", f"{SC[a][0]} f@({SC[a][0]}, {SC[a][0]}); void t@(void) {{ {SC[b][0]} v = {'100' if a in 'cCfdD' or b in 'cCfdD' else value(b, 3)}, w; w = f@(v, (char) 3); {SC[b][1]}(w); }}")
    # narrow values arrive with garbage above them: callees must not rely on the upper bits
    for k in "cChH":
        yield Sig(f"narrow:{k}", [], f"long f@({SC[k][0]} a, {SC[k][0]} b, {SC[k][0]} c, {SC[k][0]} d, {SC[k][0]} e, {SC[k][0]} f, {SC[k][0]} g, {SC[k][0]} h) {{ emit(a); emit(g + h); emit(a < 0); emit((long) b * c); emit(h == g); return a + b + c + d + e + f + g + h; }}", f"long f@(long, long, long, long, long, long, long, long); void t@(void) {{ emit(f@(-1l, 0x1234567890l, -0x80l, 0xffffl, 0x7fff8001l, -0x12345678l, 0x1ff80l, -0x180l)); }}")
        yield Sig(f"narrowret:{k}", [], f"int f@(int x) {{ return x * 0x10101; }}", f"{SC[k][0]} f@(int); void t@(void) {{ int i; for (i = -3; i < 300; i += 7) {{ emit(f@(i)); emit(f@(i) > 100); long z = f@(i); emit(z); }} }}")


class Interop(Engine):
    def src(self, sigs, what):
        defs = sort_defs([t for s in sigs for t in s.types])
        return PRE + "\n".join(defs) + "\n" + "\n".join(getattr(s, what).replace("@", str(i)) for i, s in enumerate(sigs)) + "\n"

    def combos(self, d, sigs):
        objs = {}
        for what in ("caller", "callee"):
            p = write(os.path.join(d, what + ".c"), self.src(sigs, what))
            g, err = self.compile_ref(d, p, "gcc", "g" + what)
            if not g: return "gen", err
            w, why = self.compile_wcc(d, p, "w" + what)
            if not w: return "reject", what + ": " + why
            objs["g" + what], objs["w" + what] = g, w
        res = {}
        for a in "gw":
            for b in "gw":
                exe = os.path.join(d, a + b)
                r = run(["gcc", "-no-pie", "-o", exe, *self.objs, self.table(d, len(sigs)), objs[a + "caller"], objs[b + "callee"], "-lm"], timeout=60)
                if r.rc: return ("gen" if a + b == "gg" else "reject"), r.err[:500]
                res[a + b] = self.execute(exe, len(sigs), full=len(sigs) == 1)
        return "ok", res

    def batch(self, sigs):
        d = core.subdir("b")
        try:
            st, res = self.combos(d, sigs)
        finally: core.rmtree(d)
        if st == "gen": return [("gen", sigs[0].key, res[:1500], {})], 0, set(), 0
        if st == "reject":
            if len(sigs) == 1: return [("fail", sigs[0].key, res, self.files(sigs[0]))], 1, set(), 0
            h = len(sigs) // 2
            a, b = self.batch(sigs[:h]), self.batch(sigs[h:])
            return a[0] + b[0], a[1] + b[1], a[2] | b[2], a[3] + b[3]
        fails, hashes, emits = [], set(), 0
        for i, s in enumerate(sigs):
            ref = res["gg"].get(i)
            if ref is None or ref[0]:
                fails.append(("gen", s.key, f"reference run: {ref}", self.files(s)))
                continue
            hashes.add(ref[1])
            emits += ref[2]
            for c in ("wg", "gw", "ww"):
                x = res[c].get(i)
                if x is None or x[:3] != ref[:3]:
                    if len(sigs) > 1:
                        one = self.batch([s]) if len(fails) < 12 else None
                        fails += one[0] if one and one[0] else [("fail", s.key, c + " disagrees (in a batch)", self.files(s))]
                    else:
                        names = {"w": "wcc", "g": "gcc"}
                        fails.append(("fail", s.key, f"caller by {names[c[0]]}, callee by {names[c[1]]}: " + self.describe(x, ref), self.files(s)))
                    break
        return fails, 3 * len(sigs), hashes, emits

    def files(self, s):
        return {"caller.c": self.src([s], "caller"), "callee.c": self.src([s], "callee"), "table.s": "\t.data\n\t.globl mc_cases, mc_n\nmc_n: .quad 1\nmc_cases: .quad t0\n",
                "run.sh": "#!/bin/sh\n# usage: sh run.sh WCC: prints what is observed for each combination caller/callee\ncd $(dirname $0)\nfor f in caller callee; do ${1:-/repo/wcc} -c $f.c -o w$f.o; gcc -std=gnu89 -w -c $f.c -o g$f.o; done\nfor a in g w; do for b in g w; do echo $a$b; gcc -no-pie -o x %s/run.c %s/stubs.s table.s ${a}caller.o ${b}callee.o && ./x -1 full; done; done\n" % (core.RT, core.RT)}

    def go(self, cases, batch):
        for c in cases: pass


def main():
    rep = Report("C08", LEVEL, "distinct = distinct logs of received arguments and results", ["gcc implements the System V ABI"])
    e = Interop(rep)
    e.__class__.go = Engine.go

    class C:    # what Engine.go shows of a case
        pass
    Sig.decls = property(lambda s: " | ".join(t.defs[-1] for t in s.types if t.defs)[:120] + " " + s.callee[:160])
    Sig.body = property(lambda s: "")
    e.go(sigs(), batch=60)
    return rep.finish()
