"""C06: every small control-flow graph with assignments, copies and swaps between variables, all parallel assignments carried round loops, and
every operation under a swept register pressure; explored over every vector of branch outcomes on the compiled code."""
import itertools
from .. import core
from ..diff import Case, Engine
from ..core import Report

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of compiled programs: exhaustive small CFGs and parallel assignments, swept register pressure, all branch outcomes up to a depth, values compared with gcc and clang"
NOTE = "CFGs of 2 blocks over 12 variable operations, 3 blocks over a reduced set; all mappings of 3 (4) variables carried round three loop forms; 60 operations under 0 to 24 live values of 7 types. Every path up to 8 (10) choices runs on the real compiled code. Trusts gcc and clang where they agree."

DEPTH = 10 if core.THOROUGH else 8
OPS = ["", "v0 = v1;", "v1 = v0;", "t = v0; v0 = v1; v1 = t;", "t = v0; v0 = v1; v1 = v2; v2 = t;", "v0 = v0 + 1;", "v1 = v0 + v2;", "v2 = src(v2);", "v0++; v1 = v0++;", "v2 = v0 * v1; v0 = v2 - v1;", "t = v2; v2 = v0; v1 = t;", "v0 = v1 = v2;", "emit(v0); v0 = 5;", "g += v1; v1 = g;"]


def terms(n): return [("ret",)] + [("fall", j) for j in range(n)] + [("jmp", j) for j in range(n)]


def diverges(combo):
    n = len(combo)
    for i in range(n):
        j, seen = i, set()
        while j < n and j not in seen and combo[j][0] == "jmp":
            seen.add(j)
            j = combo[j][1]
        if j in seen: return True
    return False


def reach(combo):
    seen, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i in seen or i >= len(combo): continue
        seen.add(i)
        t = combo[i]
        if t[0] == "jmp": todo.append(t[1])
        elif t[0] == "fall": todo += [t[1], i + 1]
    return len(seen) == len(combo)


def graphs(n, ops, tt, types):
    for combo in itertools.product(tt(n), repeat=n):
        if diverges(combo) or not reach(combo): continue
        for os_ in itertools.product(ops, repeat=n):
            s = ""
            for i, t in enumerate(combo):
                s += f"L{i}: {os_[i]} "
                if t[0] == "ret": s += "goto out; "
                elif t[0] == "jmp": s += f"goto L{t[1]}; "
                else: s += f"if (choose()) goto L{t[1]}; "
            key = "|".join(t[0] + "".join(map(str, t[1:])) + ":" + o for t, o in zip(combo, os_))
            yield mk(f"g{n}:{key}", f"int v0 = 10, v1 = 20, v2 = 30, t; g = 3; {s} out: emit(v0); emit(v1); emit(v2); emit(g);")


def mk(key, body, decls=""):
    return Case(key, f"explore(w@, {DEPTH});", decls + f" static void w@(void) {{ {body} }}")


VT = {"int": "emit", "long": "emit", "char": "emit", "double": "emitd", "float": "emitf", "long double": "emitld", "unsigned short": "emit", "short": "emit"}


def parallel():
    """a_i' = a_f(i) for all f, in three loop forms, sequentially in all orders."""
    for k in (2, 3, 4) if core.THOROUGH else (2, 3):
        for f in itertools.product(range(k), repeat=k):
            for tname, em in list(VT.items())[:7]:
                if tname in ("char", "unsigned short") and k == 3 and not core.THOROUGH: continue
                decl = f"{tname} " + ", ".join(f"a{i} = {i + 2}" for i in range(k)) + ", " + ", ".join(f"t{i}" for i in range(k)) + ";"
                par = " ".join(f"t{i} = a{f[i]};" for i in range(k)) + " " + " ".join(f"a{i} = t{i};" for i in range(k))
                out = " ".join(f"{em}(a{i});" for i in range(k))
                yield mk(f"par{k}:{f}:{tname}:while", f"{decl} while (choose()) {{ {par} }} {out}")
                yield mk(f"par{k}:{f}:{tname}:if", f"{decl} int n = 0; do {{ if (choose()) {{ {par} }} else a0 = a0 + 1; }} while (++n < 4); {out}")
                yield mk(f"par{k}:{f}:{tname}:emit", f"{decl} for (; choose(); ) {{ {em}(a0); {par} if (choose()) continue; {em}(a{k - 1}); }} {out}")
        # sequences of plain copies
        copies = [(i, j) for i in range(k) for j in range(k) if i != j]
        for n in (2, 3) if k == 3 else (2,):
            for seq in itertools.product(copies, repeat=n):
                body = " ".join(f"a{i} = a{j};" for i, j in seq)
                decl = "int " + ", ".join(f"a{i} = {i + 2}" for i in range(k)) + ";"
                yield mk(f"copy{k}:{seq}", f"{decl} while (choose()) {{ {body} a0 = a0 + 7; }} " + " ".join(f"emit(a{i});" for i in range(k)))
    # partial: assigned on some paths only, read only there
    for pat in range(16):
        yield mk(f"partial:{pat}", f"int x, y, s = 0; if (choose()) {{ x = 1; {'s = 1;' if pat & 1 else ''} }} else {{ {'x = 2; ' if pat & 2 else ''} s = 2; }} if (choose()) y = {'x' if pat & 2 else '5'}; else y = s; while (choose()) {{ int z; {'z = y;' if pat & 4 else 'z = s;'} s = z + 1; {'y = s;' if pat & 8 else ''} }} emit(s); emit(y);")


INTOPS = {"add": "a + b", "sub": "a - b", "rsub": "b - a", "mul": "a * b", "div": "a / (b | 1)", "mod": "a % (b | 1)", "shl": "(a & 255) << (b & 15)", "shr": "a >> (b & 15)", "and": "a & b", "or": "a | b", "xor": "a ^ b", "not": "~a", "neg": "-a", "lnot": "!a", "lt": "a < b", "eq": "a == b", "ge": "a >= b", "land": "a && b", "lor": "a || b",
          "tern": "a > b ? a : b", "call1": "h1(a)", "call2": "h2(a, b)", "call6": "h6(a, b, a, b, a, b)", "call8": "h8(a, b, a, b, a, b, a, b)", "calln": "h2(h1(a), h1(b))", "idx": "arr[a & 7] + arr[b & 7]", "char": "(char) a + (unsigned char) b", "short": "(short) (a * 3000)", "const": "a + 1000 - b * 7", "sq": "a * a + b * b", "poly": "(a + b) * (a - b)", "addk": "a + 1", "divk": "a / 7", "modk": "a % 10", "shlk": "a * 8",
          "deref": "*(arr + (a & 7))", "st": "(arr[a & 7] = b)", "st2": "(gs.m = a, gs.n = b, gs.m - gs.n)", "asg": "(q = a + b, q * 2)", "divdiv": "a / (b | 1) / 3", "shsh": "(a & 15) << (b & 7) >> (a & 3)", "shdiv": "((a & 255) << (b & 7)) / ((b & 7) + 1)", "divsh": "(a / (b | 1)) << (b & 7 & 3)", "modsh": "(a % (b | 1)) >> (b & 3)"}
FPOPS = {"add": "a + b", "sub": "a - b", "mul": "a * b", "div": "a / (b * b + 1)", "neg": "-a", "lt": "a < b", "eq": "a == b", "toint": "(int) a + (long) b", "fromint": "(n + 1) * a", "call1": "f1(a)", "call2": "f2(a, b)", "calln": "f2(f1(a), f1(b))", "tern": "a > b ? a : b", "land": "a && b", "lnot": "!a", "st": "(fa[n & 3] = b)", "conv": "(float) a + (double) b", "ld": "(long double) a * b", "const": "a * 2.5 + 1", "sq": "a * a + b * b"}
PRO = """static int g, q; static struct { int m, n; } gs; static int arr[8];
static double dsrc(double x) { return x * 2; }
static int src(int x) { return x * 3 + 1; }
"""
PTYPES = ["int", "long", "unsigned", "short", "double", "float", "long double"]


def helpers(t):
    u = t.replace(" ", "_")
    return f"static {t} h1_{u}({t} a) {{ return a * 2 + 1; }} static {t} h2_{u}({t} a, {t} b) {{ return a - b; }} static {t} h6_{u}({t} a, {t} b, {t} c, {t} d, {t} e, {t} f) {{ return a + b * 2 + c * 3 - d * 4 + e * 5 - f; }} static {t} h8_{u}({t} a, {t} b, {t} c, {t} d, {t} e, {t} f, {t} g, {t} h) {{ return a + b * 2 + c * 3 - d * 4 + e * 5 - f + g * 7 - h * 8; }} static {t} arr_{u}[8], q_{u}, fa_{u}[4]; static struct {{ {t} m, n; }} gs_{u};\n" \
           f"static {t} f1_{u}({t} a) {{ return a * 2 + 1; }} static {t} f2_{u}({t} a, {t} b) {{ return a - b; }}\n"


def pressure():
    import re
    levels = (0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 24) if core.THOROUGH else (0, 5, 8, 9, 10, 11, 12, 14, 20)
    for t in PTYPES:
        fp = t in ("double", "float", "long double")
        em = VT.get(t, "emit")
        u = t.replace(" ", "_")
        for name, e in (FPOPS if fp else INTOPS).items():
            def inst(a, b):
                s = re.sub(r"\b(h1|h2|h6|h8|f1|f2|arr|gs|fa)\b", lambda m: m[1] + "_" + u, e)
                s = re.sub(r"\bq\b", "q_" + u, s)
                return re.sub(r"\b([ab])\b", lambda m: a if m[1] == "a" else b, s)
            for P in levels:
                if name in ("call8", "call6", "calln") and P > 14: continue
                for form in ("reg", "param", "loop", "op2"):
                    if form != "reg" and not core.THOROUGH and P not in (0, 9, 11, 12, 14): continue
                    lv = ", ".join(f"p{i} = n * {i + 3}" for i in range(P))
                    decl = f"{t} {lv};" if P else ""
                    use = " ".join(f"r += p{i};" if i % 2 else f"r -= p{i};" for i in range(P))
                    if form == "reg":
                        code = f"int n = 1 + pick(2); {t} x = n * 11, y = n - 8, r; {decl} r = {inst('x', 'y')}; {use} {em}(r); r = {inst('y', 'x')}; {em}(r + x); {em}(y); " + " ".join(f"{em}(p{i});" for i in range(P))
                        yield mk(f"pr:{t}:{name}:{P}:{form}", code)
                    elif form == "param":
                        yield mk(f"pr:{t}:{name}:{P}:{form}", f"{em}(k@(1 + pick(2), 21, -9, 4, 5, 6, 7, 8, 9));", f"static {t} k@(int n, {t} x, {t} y, {t} z, {t} w, {t} m, {t} o, {t} s, {t} u) {{ {t} r; {decl} r = {inst('x', 's')} + z * w; r += {inst('u', 'x')}; r -= m + o; {use} return r + {inst('y', 'm')}; }}")
                    elif form == "loop":
                        upd = " ".join(f"p{i} = p{(i + 1) % P} + {i};" for i in range(P))
                        yield mk(f"pr:{t}:{name}:{P}:{form}", f"int n = 2; {t} x = 13, y = 5, r = 0; {decl} while (choose()) {{ r = r + ({inst('x', 'y')}); x = x + 1; y = y - 2; {upd} if (choose()) break; }} {use} {em}(r); {em}(x); {em}(y);")
                    else:
                        # operands and results are themselves the spilled ones
                        if P < 4: continue
                        yield mk(f"pr:{t}:{name}:{P}:{form}", f"int n = 1 + pick(2); {t} r = 0; {decl} p0 = {inst('p1', f'p{P - 1}')}; p{P - 1} = {inst(f'p{P - 2}', 'p2')}; p2 = {inst('p0', 'p0')}; p{P // 2} = {inst(f'p{P // 2}', f'p{P // 2 - 1}')}; " + " ".join(f"{em}(p{i});" for i in range(P)))


def across():
    """Values live across calls, address-taken variables, parameters."""
    for n in range(1, 13):
        for t, em in VT.items():
            ps = ", ".join(f"{t} a{i}" for i in range(n))
            args = ", ".join(str(i * 3 + 1) for i in range(n))
            body = " ".join(f"s += a{i} * {i + 1};" for i in range(n))
            yield Case(f"param:{n}:{t}", f"{em}(f@({args})); {em}(f@({args}));", f"static {t} f@({ps}) {{ {t} s = 0; {body} emit(src(1)); {' '.join(f'a{i} = a{(i + 1) % n} + 1;' for i in range(n))} {body} return s; }}")
            yield Case(f"rec:{n}:{t}", f"{em}(f@(3, {args}));", f"static {t} f@(int d, {ps}) {{ {t} l = a0, s = 0; if (d) s = f@(d - 1, {', '.join(f'a{(i + 1) % n}' for i in range(n))}); {body} return s + l; }}")
    for n in range(1, 9):
        for mask in range(1 << min(n, 4)):
            adr = "".join(f"pp[{i}] = &a{i}; " for i in range(n) if mask >> i & 1)
            poke = "".join(f"*pp[{i}] += 5; " for i in range(n) if mask >> i & 1)
            yield mk(f"addr:{n}:{mask}", "int *pp[8]; int " + ", ".join(f"a{i} = {i}" for i in range(n)) + f"; {adr} while (choose()) {{ {poke} " + " ".join(f"a{i} = a{i} + a{(i + 1) % n};" for i in range(n)) + " } " + " ".join(f"emit(a{i});" for i in range(n)))
    mixes = [("int", "double", "long"), ("float", "char", "long double", "int"), ("long", "float", "double", "short", "int"), ("long double", "int", "double")]
    for mi, mix in enumerate(mixes):
        for n in (3, 8, 16, 28):
            for call in ("", "emit(src(2));", "emitd(dsrc(1.5));"):
                vs = [(mix[i % len(mix)], f"a{i}") for i in range(n)]
                decl = " ".join(f"{t} {v} = {i + 1};" for i, (t, v) in enumerate(vs))
                upd = " ".join(f"a{i} = a{(i * 5 + 1) % n} + 1;" for i in range(n))
                yield mk(f"mix:{mi}:{n}:{call}", f"{decl} while (choose()) {{ {upd} {call} if (choose()) a0 = a{n - 1}; }} " + " ".join(f"{VT[t]}({v});" for t, v in vs))
    for n in (5, 12, 20, 40):
        yield mk(f"expr:{n}", "int a = 1 + pick(2), " + ", ".join(f"b{i} = a * {i}" for i in range(n)) + "; emit(" + " + ".join(f"b{i} * b{n - 1 - i}" for i in range(n)) + "); emit(" + " + ".join(f"(b{i} - src(b{n - 1 - i}))" for i in range(n)) + "); emit(" + "(".join(f"b{i} + " for i in range(n)) + "1" + ")" * (n - 1) + ");")
        yield mk(f"dexpr:{n}", "double a = 1 + pick(2), " + ", ".join(f"b{i} = a * {i}" for i in range(n)) + "; emitd(" + " + ".join(f"b{i} * b{n - 1 - i}" for i in range(n)) + "); emitd(" + "(".join(f"b{i} + " for i in range(n)) + "1" + ")" * (n - 1) + ");")
        yield mk(f"loops:{n}", "int " + ", ".join(f"b{i} = {i}" for i in range(n)) + ", i, j; for (i = 0; i < 3; i++) { for (j = 0; j < 2; j++) { " + " ".join(f"b{i} += b{(i + 3) % n} ^ j;" for i in range(n)) + " } if (choose()) { " + " ".join(f"b{i} -= i;" for i in range(0, n, 2)) + " } } " + " ".join(f"emit(b{i});" for i in range(n)))
        yield mk(f"ptrs:{n}", f"int *p0 = arr + pick(2), *p1 = arr + 1; " + " ".join(f"int *q{i} = p{i % 2} + {i % 3};" for i in range(n)) + " " + " ".join(f"*q{i} = {i} + *q{(i + 2) % n};" for i in range(n)) + " int j; for (j = 0; j < 8; j++) emit(arr[j]); " + " ".join(f"emit(q{i} - arr);" for i in range(n)) + " for (j = 0; j < 8; j++) arr[j] = 0;")


def cases():
    yield from parallel()
    yield from pressure()
    yield from across()
    yield from graphs(1, OPS, terms, "int")
    yield from graphs(2, OPS, terms, "int")
    yield from graphs(3, OPS[3:8:2] if not core.THOROUGH else [OPS[i] for i in (1, 3, 4, 6, 7, 9)], terms, "int")


def main():
    rep = Report("C06", LEVEL, "distinct = distinct trees of observed values (one program's values over all choice vectors)", ["gcc and clang implement C where they agree"])
    Engine(rep, PRO + "".join(helpers(t) for t in PTYPES)).go(cases(), batch=100)
    rep.states = rep.evals + rep.transitions
    rep.traces = rep.paths
    return rep.finish()
