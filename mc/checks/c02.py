"""C02: every floating-point operator, comparison and conversion over every operand type pair and operand form, on all pairs of the
extreme values of the formats, against gcc (cross-checked with clang on any disagreement)."""
import sys
from fractions import Fraction
from .. import core, ctypes_ as ct
from ..ctypes_ import cname as icname
from ..diff import Case, Engine
from ..core import Report

sys.set_int_max_str_digits(0)

FT = {"fl": "float", "do": "double", "ld": "long double"}
EM = {"fl": "emitf", "do": "emitd", "ld": "emitld"}
PREC = {"fl": (24, -149, 127), "do": (53, -1074, 1023), "ld": (64, -16445, 16383)}
RANKF = ["fl", "do", "ld"]
INTS = ["sc", "uc", "ss", "us", "si", "ui", "sl", "ul"]
SUF = {"fl": "f", "do": "", "ld": "L"}


def cname(t): return FT.get(t) or icname(t)


def values(t):
    """[(hex spelling, decimal literal or None, Fraction or None)]"""
    p, emin, emax = PREC[t]
    fr = [Fraction(0), Fraction(1), Fraction(1, 2), Fraction(3, 2), Fraction(2), Fraction(3), Fraction(10), Fraction(127), Fraction(128), Fraction(255), Fraction(256),
          Fraction(1 << 31), Fraction((1 << 31) - 1), Fraction(1 << 32), Fraction((1 << 32) - 1), Fraction(1 << 53), Fraction((1 << 53) + 1), Fraction(1 << 63),
          Fraction((1 << 63) - 512), Fraction((1 << 63) - 1), Fraction((1 << 63) + 4096), Fraction((1 << 64) - 2048), Fraction((1 << 64) - 1), Fraction(1 << 64), Fraction(1, 3), Fraction(1, 10),
          Fraction(99, 10), Fraction(65535), Fraction(65536), Fraction(32767) + Fraction(1, 2), Fraction(1, 1 << (p - 1)), 1 + Fraction(1, 1 << (p - 1)),
          Fraction(2) ** (emax - p + 1) * ((1 << p) - 1), Fraction(2) ** emin, Fraction(2) ** (emin + p - 1), Fraction(2) ** (emax // 2 + 1), Fraction(16777217), Fraction(1 << 24)]
    out, seen = [], set()
    for f in fr:
        if f == 0: r = f
        else:
            e = max((f.numerator.bit_length() - f.denominator.bit_length()) - p - 1, emin)
            while True:
                q = f / Fraction(2) ** e
                n = round(q)
                if n.bit_length() <= p: break
                e += 1
            r = n * Fraction(2) ** e
        if r in seen: continue
        seen.add(r)
        for s in (1, -1):
            out.append((hexs(r, s), s * r))
    return out + [("(1.0/0.0)", "inf"), ("(-1.0/0.0)", "-inf"), ("__builtin_nan(\"\")", "nan")]


def hexs(r, s):
    e = 0
    n, d = r.numerator, r.denominator
    return f"{'-' if s < 0 else ''}0x{n:x}p-{d.bit_length() - 1}L" if r else ("-0.0" if s < 0 else "0.0")


def few(t):
    """A smaller set of values, for the constants and the quick tier."""
    v = values(t)
    keep = {0, 1, Fraction(1, 2), 3, 1 << 31, (1 << 32) - 1, 1 << 53, 1 << 63, (1 << 64) - 2048, 1 << 64, 1 + Fraction(1, 1 << (PREC[t][0] - 1)),
            Fraction(2) ** (PREC[t][2] - PREC[t][0] + 1) * ((1 << PREC[t][0]) - 1), Fraction(2) ** PREC[t][1], "inf", "-inf", "nan"}
    third = [x for x in v if isinstance(x[1], Fraction) and 0 < abs(x[1]) < 1 and x[1].denominator > 1 << 20][:4]
    return [x for x in v if (x[1] if isinstance(x[1], str) else abs(x[1])) in keep] + third


def literal(t, v):
    """A C89 decimal literal that denotes exactly v in type t, or None"""
    f = v[1]
    if isinstance(f, str): return {"inf": f"(1.0{SUF[t]}/0.0{SUF[t]})", "-inf": f"(-1.0{SUF[t]}/0.0{SUF[t]})", "nan": f"(0.0{SUF[t]}/0.0{SUF[t]})"}[f]
    neg = v[0].startswith("-")
    a = abs(f)
    if a == 0: s = "0.0"
    else:
        digits = {"fl": 10, "do": 18, "ld": 22}[t]
        k = len(str(a.numerator)) - len(str(a.denominator))
        sc = digits - k
        n = round(a * Fraction(10) ** sc)
        s = f"{n}.0e{-sc}"
    return f"(-{s}{SUF[t]})" if neg else s + SUF[t]


def tables():
    out = []
    for t in FT:
        vs = values(t) if core.THOROUGH else few(t)
        out.append(f"{FT[t]} V_{t}[] = {{{','.join(v[0] for v in vs)}}}; int N_{t} = {len(vs)};\n")
        va = values(t)
        out.append(f"{FT[t]} W_{t}[] = {{{','.join(v[0] for v in va)}}}; int M_{t} = {len(va)};\n")
        for i in INTS:
            ok = [k for k, v in enumerate(va) if not isinstance(v[1], str) and ct.lo(i) <= int(v[1]) <= ct.hi(i)]
            out.append(f"int OK_{t}_{i}[] = {{{','.join(map(str, ok))}}}; int NOK_{t}_{i} = {len(ok)};\n")
    for i in INTS:
        vs = ct.values(i)
        if not core.THOROUGH: vs = vs[::3] + [vs[-1], vs[-2], vs[1]]
        out.append(f"{icname(i)} V_{i}[] = {{{','.join(ct.lit(v, i) for v in vs)}}}; int N_{i} = {len(vs)};\n")
        va = sorted(set(ct.values(i)) | {x for x in ((1 << 53) + 1, (1 << 24) + 1, (1 << 62) + 1, (1 << 63) + 1, (1 << 63) + 1025, (1 << 64) - 1, (1 << 54) + 3, -(1 << 53) - 1) if ct.lo(i) <= x <= ct.hi(i)})
        out.append(f"{icname(i)} W_{i}[] = {{{','.join(ct.lit(v, i) for v in va)}}}; int M_{i} = {len(va)};\n")
    return "".join(out)


OPS = ["+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]
NAMES = dict(ct.OPNAME)
FORMS = {"par": "%s", "loc": "l%s", "glo": "g%s@", "der": "*q%s", "arr": "w%s[k]", "mem": "s->m%s"}


def rtype(op, a, b):
    if op not in "+-*/": return "si"
    return max([t for t in (a, b) if t in FT], key=RANKF.index)


def cases():
    pairs = [(a, b) for a in FT for b in FT] + [(a, b) for a in FT for b in INTS] + [(b, a) for a in FT for b in INTS]
    for a, b in pairs:
        A, B = cname(a), cname(b)
        for op in OPS:
            r = rtype(op, a, b)
            R = cname(r)
            em = EM.get(r, "emit")
            n = f"{NAMES[op]}_{a}_{b}"
            head = f"extern {A} V_{a}[]; extern {B} V_{b}[]; extern int N_{a}, N_{b};\n"
            loop = f"int i, j; for (i = 0; i < N_{a}; i++) for (j = 0; j < N_{b}; j++) "
            call = f"f@(V_{a}[i], V_{b}[j])"
            fl = list(FORMS)
            for x, fa in enumerate(fl):
                for y, fb in enumerate(fl):
                    if not core.THOROUGH and fa != fb and not (a in FT and b in FT and "par" in (fa, fb)) and (x * 5 + y + OPS.index(op) + len(a + b) + ord(b[0])) % 5: continue
                    use = {fa, fb}
                    dec = head + f"struct S@ {{ char pad; {A} ma; {B} mb; }}; {A} ga@; {B} gb@;\n{R} f@({A} a, {B} b) {{\n"
                    pre, post = "", ""
                    if "loc" in use: pre += f" {A} la; {B} lb;"; post += " la = a; lb = b;"
                    if "der" in use: pre += f" {A} *qa; {B} *qb;"; post += " qa = &a; qb = &b;"
                    if "arr" in use: pre += f" {A} wa[3]; {B} wb[3]; int k;"; post += " k = 1; wa[0] = wa[2] = 9; wb[0] = wb[2] = 9; wa[1] = a; wb[1] = b;"
                    if "mem" in use: pre += " struct S@ sv; struct S@ *s;"; post += " s = &sv; sv.ma = a; sv.mb = b;"
                    if "glo" in use: post += " ga@ = a; gb@ = b;"
                    dec += pre + "\n" + post + f"\n return {FORMS[fa].replace('%s', 'a')} {op} {FORMS[fb].replace('%s', 'b')}; }}\n"
                    yield Case(f"{n}:{fa},{fb}", f"{loop} {em}({call});", dec)
            # conditions
            dec = head + f"int f@({A} a, {B} b) {{ int r; r = 0; if (a {op} b) r += 1; if (!(a {op} b)) r += 2; r += (a {op} b) ? 4 : 8;" \
                         f" while (a {op} b) {{ r += 16; break; }} if ((a {op} b) && r) r += 32; if ((a {op} b) || !r) r += 64; r += 128 * !(a {op} b); do {{ r += 256; if (r > 600) break; }} while (a {op} b); return r; }}\n"
            yield Case(f"{n}:cond", f"{loop} emit({call});", dec)
            dec = head + f"{R} f@({A} a, {B} b) {{ {A} a2; {B} b2; a2 = a; b2 = b; emit(sizeof(a {op} b)); " + (f"a2 = a {op} b; {EM.get(a, 'emit')}(a2); " if a in FT and op in "+-*/" else "") + \
                (f"b2 = b {op} b; {EM.get(b, 'emit')}(b2); " if b in FT and op in "+-*/" else "") + f" return a {op} b; }}\n"
            yield Case(f"{n}:store", f"{loop} {em}({call});", dec)
            # constants
            for side in "lr":
                t = a if side == "l" else b
                o = b if side == "l" else a
                cs = [literal(t, v) for v in few(t)] if t in FT else [ct.lit(v, t) for v in ct.values(t)[::2]]
                if t in FT and not core.THOROUGH and o not in FT: cs = cs[::2]
                dec, body = f"extern {cname(o)} V_{o}[]; extern int N_{o};\n", ""
                for k, c in enumerate(cs):
                    e = f"{c} {op} x" if side == "l" else f"x {op} {c}"
                    dec += f"{R} f@_{k}({cname(o)} x) {{ return {e}; }}\nint h@_{k}({cname(o)} x) {{ if ({e}) return 1; return 2; }}\n"
                    body += f"for (i = 0; i < N_{o}; i++) {{ {em}(f@_{k}(V_{o}[i])); emit(h@_{k}(V_{o}[i])); }}\n"
                yield Case(f"{n}:const-{side}", "int i;\n" + body, dec)
            if a in FT or b in FT:
                ca = [literal(a, v) for v in few(a)] if a in FT else [ct.lit(v, a) for v in ct.values(a)[::3]]
                cb = [literal(b, v) for v in few(b)] if b in FT else [ct.lit(v, b) for v in ct.values(b)[::3]]
                ps = [(x, y) for x in ca for y in cb]
                st = 1 if core.THOROUGH else max(1, len(ps) // 40)
                body = "".join(f"{em}({x} {op} {y});\n" for x, y in ps[len(op) % st::st])
                yield Case(f"{n}:const-const", body)
    # conversions
    for a in list(FT) + INTS:
        for b in list(FT) + INTS:
            if a not in FT and b not in FT: continue
            A, B = cname(a), cname(b)
            eb, ea = EM.get(b, "emit"), EM.get(a, "emit")
            dec = f"extern {A} W_{a}[]; extern int M_{a};\n"
            if a in FT and b in INTS:
                dec += f"extern int OK_{a}_{b}[]; extern int NOK_{a}_{b};\n"
                loop = f"for (i = 0; i < NOK_{a}_{b}; i++) {{ {A} x; x = W_{a}[OK_{a}_{b}[i]];"
            else:
                loop = f"for (i = 0; i < M_{a}; i++) {{ {A} x; x = W_{a}[i];"
            dec += f"{B} g@; struct S@ {{ char c; {B} m; char e; }}; {B} w@[3];\n"
            dec += f"{B} f@({A} a) {{ return ({B}) a; }}\n{B} r@({A} a) {{ return a; }}\n{B} h@({B} a) {{ return a; }}\n{B} p@({A} *a) {{ return ({B}) *a; }}\n{B} z@({A} a) {{ {B} x; x = a; return x; }}\n"
            dec += f"int c@({A} a) {{ if (({B}) a) return 1; return 2; }}\n{B} k@({A} a, {A} b) {{ {A} y; y = a; return y; }}\n"
            body = f"int i; struct S@ s; {loop} {eb}(f@(x)); {eb}(r@(x)); {eb}(h@(x)); {eb}(p@(&x)); {eb}(z@(x)); emit(c@(x)); {eb}(k@(x, x)); g@ = x; {eb}(g@); " \
                   f"s.c = 1; s.e = 2; s.m = x; {eb}(s.m); emit(s.c + s.e); w@[0] = w@[2] = 5; w@[1] = x; {eb}(w@[0]); {eb}(w@[1]); {eb}(w@[2]); emit(sizeof(({B}) x)); {eb}(x); }}\n"
            if a in FT:
                ok = [v for v in values(a) if b in FT or (not isinstance(v[1], str) and ct.lo(b) <= int(v[1]) <= ct.hi(b))]
                body += "".join(f"{eb}(({B}) {literal(a, v)});\n" for v in ok)
            else:
                body += "".join(f"{eb}(({B}) {ct.lit(v, a)});\n" for v in ct.values(a))
            yield Case(f"conv_{a}_{b}", body, dec)
    # unary operators, truth
    for a in FT:
        A, em = FT[a], EM[a]
        dec = f"extern {A} W_{a}[]; extern int M_{a}; {A} g@; struct S@ {{ char c; {A} m; }};\n"
        dec += f"{A} n@({A} a) {{ return -a; }}\n{A} o@({A} a) {{ return +a; }}\nint l@({A} a) {{ return !a; }}\nint m@({A} a) {{ return !!a; }}\n{A} p@({A} *a) {{ return -*a; }}\n{A} q@(struct S@ *a) {{ return -a->m; }}\n{A} h@() {{ return -g@; }}\n"
        dec += f"int c@({A} a) {{ int r; r = 0; if (a) r += 1; if (!a) r += 2; r += a ? 4 : 8; while (a) {{ r += 16; break; }} for (; a; ) {{ r += 32; break; }} do r += 64; while (a && r < 500); if (a || r == 0) r += 1024; return r; }}\n{A} y@({A} a, {A} b, int c) {{ return c ? a : b; }}\nint gc@() {{ if (g@) return 1; return 2; }}\n"
        dec += f"int pc@({A} *a) {{ if (*a) return 1; return 2; }}\n"
        body = f"int i; struct S@ s; for (i = 0; i < M_{a}; i++) {{ {A} x; x = W_{a}[i]; g@ = x; s.m = x; {em}(n@(x)); {em}(o@(x)); emit(l@(x)); emit(m@(x)); {em}(p@(&x)); {em}(q@(&s)); {em}(h@()); emit(c@(x)); {em}(y@(x, 1, i & 1)); emit(gc@()); emit(pc@(&x)); }}\n"
        body += "".join(f"{em}(-{literal(a, v)}); emit(!{literal(a, v)}); if ({literal(a, v)}) emit(1); else emit(2); emit({literal(a, v)} ? 3 : 4);\n" for v in values(a))
        yield Case(f"unary_{a}", body, dec)
        for b in list(FT) + INTS:
            # the type of ?: with mixed operands
            B = cname(b)
            r = rtype("+", a, b)
            dec = f"extern {A} W_{a}[]; extern int M_{a}; extern {B} V_{b}[]; extern int N_{b};\n{FT[r]} f@(int c, {A} a, {B} b) {{ emit(sizeof(c ? a : b)); return c ? a : b; }}\n{FT[r]} g@(int c, {A} a, {B} b) {{ return c ? b : a; }}\n"
            yield Case(f"ternary_{a}_{b}", f"int i, j; for (i = 0; i < M_{a}; i++) for (j = 0; j < N_{b}; j++) {{ {EM[r]}(f@(1, W_{a}[i], V_{b}[j])); {EM[r]}(f@(0, W_{a}[i], V_{b}[j])); {EM[r]}(g@(1, W_{a}[i], V_{b}[j])); }}", dec)


LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of operator/type/operand-form programs on all pairs of format extremes, differential against gcc and clang"
NOTE = "Exhaustive over the stated product; values are the format's extremes and boundaries, not all values. Trusts gcc -O0 and clang where they agree."


def main():
    rep = Report("C02", LEVEL, "operator x operand types x operand form x use; each case runs on all pairs of extreme values. Non-trivial: distinct sequence of observed bit patterns.",
                 ["NaN payloads and signs are not compared", "conversions of out-of-range values to integers are excluded (undefined)", "rounding mode is round-to-nearest"])
    e = Engine(rep, aux=tables())
    e.go(cases(), batch=60)
    return rep.finish()
