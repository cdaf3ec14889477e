"""C01: every integer operator, over every pair of operand types, operand forms and result uses, on all pairs of boundary values
(and on every pair of 8-bit values), against the value C defines as computed by gcc and cross-checked by the model in ctypes_."""
from .. import core, ctypes_ as ct
from ..ctypes_ import BINOPS, OPNAME, INT, cname, lit, values, evaluate
from ..diff import Case, Engine
from ..core import Report

TYPES = ["sc", "uc", "ss", "us", "si", "ui", "sl", "ul"]
FORMS = {"par": "%s", "loc": "l%s", "glo": "g%s@", "der": "*q%s", "arr": "w%s[k]", "mem": "s->m%s", "dot": "u.m%s"}


def pairs(op, a, b):
    va, vb = values(a), values(b)
    if not core.THOROUGH and len(va) * len(vb) > 700:
        va = [v for i, v in enumerate(va) if i % 3 != 2]
    return [(x, y) for x in va for y in vb if evaluate(op, x, a, y, b) is not None]


def tables():
    out = ["#define NOTBL\n"]
    for op in BINOPS:
        for a in TYPES:
            for b in TYPES:
                p = pairs(op, a, b)
                n = f"{OPNAME[op]}_{a}_{b}"
                out.append(f"long A_{n}[] = {{{','.join(lit(wrap64(x), 'sl') for x, _ in p)}}}; long B_{n}[] = {{{','.join(lit(wrap64(y), 'sl') for _, y in p)}}};\n"
                           f"long E_{n}[] = {{{','.join(lit(wrap64(evaluate(op, x, a, y, b)), 'sl') for x, y in p)}}}; int N_{n} = {len(p)};\n")
    return "".join(out)


def wrap64(v): return ct.wrap(v, "sl")


def cases():
    for op in BINOPS:
        for a in TYPES:
            for b in TYPES:
                n = f"{OPNAME[op]}_{a}_{b}"
                A, B = cname(a), cname(b)
                head = f"extern long A_{n}[], B_{n}[]; extern int N_{n};\n"
                loop = f"int i; for (i = 0; i < N_{n}; i++) "
                call = f"f@(({A}) A_{n}[i], ({B}) B_{n}[i])"
                # operand forms
                forms = list(FORMS)
                for fa in forms:
                    for fb in forms:
                        if not core.THOROUGH and fa != fb and "par" not in (fa, fb) and (fa, fb) not in (("loc", "der"), ("der", "arr"), ("glo", "mem"), ("mem", "dot")):
                            if (forms.index(fa) * 7 + forms.index(fb) + TYPES.index(a) + TYPES.index(b) + BINOPS.index(op)) % 4: continue
                        x = FORMS[fa].replace("%s", "a"); y = FORMS[fb].replace("%s", "b")
                        dec = head + f"struct S@ {{ char pad; {A} ma; {B} mb; }}; {A} ga@; {B} gb@;\n"
                        sgn = "long" if ct.signed(ct.result_type(op, a, b)) else "unsigned long"
                        dec += f"{sgn} f@({A} a, {B} b) {{\n"
                        use = {fa, fb}
                        pre, post = "", ""
                        if "loc" in use: pre += f" {A} la; {B} lb;"; post += " la = a; lb = b;"
                        if "der" in use: pre += f" {A} *qa; {B} *qb;"; post += " qa = &a; qb = &b;"
                        if "arr" in use: pre += f" {A} wa[3]; {B} wb[3]; int k;"; post += " k = 1; wa[0] = wa[2] = 9; wb[0] = wb[2] = 9; wa[1] = a; wb[1] = b;"
                        if "mem" in use: pre += " struct S@ sv; struct S@ *s;"; post += " s = &sv; sv.ma = a; sv.mb = b;"
                        if "dot" in use: pre += " struct S@ u;"; post += " u.ma = a; u.mb = b;"
                        if "glo" in use: post += " ga@ = a; gb@ = b;"
                        dec += pre + "\n" + post + f"\n return {x} {op} {y}; }}\n"
                        yield Case(f"{n}:{fa},{fb}", f"{loop} emit({call});", dec)
                # uses of the result
                dec = head + f"int f@({A} a, {B} b) {{ int r; r = 0; if (a {op} b) r += 1; if (!(a {op} b)) r += 2; r += (a {op} b) ? 4 : 8;" \
                             f" while (a {op} b) {{ r += 16; break; }} if ((a {op} b) && r) r += 32; if ((a {op} b) || !r) r += 64; r += 128 * !(a {op} b); do {{ r += 256; if (r > 600) break; }} while (a {op} b);" \
                             f" for (; a {op} b; ) {{ r += 4096; break; }} return r; }}\n"
                yield Case(f"{n}:cond", f"{loop} emit({call});", dec)
                # size and signedness of the result, and storing it to each type
                dec = head + "".join(f"{cname(t)} d{t}@; " for t in TYPES) + f"\nvoid f@({A} a, {B} b) {{ {A} a2; {B} b2; a2 = a; b2 = b; emit(sizeof(a {op} b)); emit((a {op} b) - (a {op} b) - 1 < 0);\n" + \
                      "".join(f"d{t}@ = a {op} b; emit(d{t}@); " for t in TYPES) + f" emit(({A}) (a2 {op} b2)); emit(({B}) (a2 {op} b2)); a2 = a {op} b; emit(a2); b2 = a {op} b; emit(b2); }}\n"
                yield Case(f"{n}:store", f"{loop} {call};", dec)
                # one operand is the same object
                if a == b:
                    ok = [v for v in values(a) if evaluate(op, v, a, v, a) is not None]
                    dec = f"long f@({A} a) {{ return a {op} a; }}\n" + f"{A} v@[] = {{{','.join(lit(v, a) for v in ok)}}};\n"
                    yield Case(f"{n}:same", f"int i; for (i = 0; i < {len(ok)}; i++) emit(f@(v@[i]));", dec)
                # constant operands
                va, vb = values(a), values(b)
                for side in "lr":
                    dec, body = "", ""
                    for k, c in enumerate(va if side == "l" else vb):
                        if side == "l": ok = [v for v in vb if evaluate(op, c, a, v, b) is not None]
                        else: ok = [v for v in va if evaluate(op, v, a, c, b) is not None]
                        if not ok: continue
                        if side == "l":
                            # && and || of a constant may be folded
                            dec += f"long f@_{k}({B} b) {{ return {lit(c, a)} {op} b; }}\nint h@_{k}({B} b) {{ int r; r = 0; if ({lit(c, a)} {op} b) r = 1; else r = 2; return r; }}\n"
                            dec += f"{B} v@_{k}[] = {{{','.join(lit(v, b) for v in ok)}}};\n"
                        else:
                            dec += f"long f@_{k}({A} a) {{ return a {op} {lit(c, b)}; }}\nint h@_{k}({A} a) {{ int r; r = 0; if (a {op} {lit(c, b)}) r = 1; else r = 2; return r; }}\n"
                            dec += f"{A} v@_{k}[] = {{{','.join(lit(v, a) for v in ok)}}};\n"
                        body += f"for (i = 0; i < {len(ok)}; i++) {{ emit(f@_{k}(v@_{k}[i])); emit(h@_{k}(v@_{k}[i])); }}\n"
                    yield Case(f"{n}:const-{side}", "int i;\n" + body, dec)
                # both constant, folded by the compiler
                ps = [(x, y) for x in va for y in vb if evaluate(op, x, a, y, b) is not None]
                step = 1 if core.THOROUGH else max(1, len(ps) // 120)
                off = (TYPES.index(a) + 3 * TYPES.index(b)) % step
                yield Case(f"{n}:const-const", "\n".join(f"emit({lit(x, a)} {op} {lit(y, b)});" for x, y in ps[off::step]))
    # every pair of 8-bit values
    for op in BINOPS:
        for a in ("sc", "uc"):
            for b in ("sc", "uc"):
                A, B = cname(a), cname(b)
                ra, rb = f"x = {ct.lo(a)}; x <= {ct.hi(a)}", f"y = {ct.lo(b)}; y <= {ct.hi(b)}"
                guard = "y != 0" if op in "/%" else "y >= 0 && y < 32" if op in ("<<", ">>") else "1"
                yield Case(f"{OPNAME[op]}_{a}_{b}:all8",
                           f"int x; int y; for ({ra}; x++) for ({rb}; y++) if ({guard}) {{ emit(f@(x, y)); emit(h@(x, y)); }}",
                           f"long f@({A} a, {B} b) {{ return a {op} b; }}\nint h@({A} a, {B} b) {{ {A} r; r = a {op} b; if (a {op} b) return r; return r + 1000; }}\n")
    # every 16-bit value with every interesting constant
    for op in BINOPS:
        for a in ("ss", "us"):
            for c in (1, 2, 3, 7, 8, 10, 16, 255, 256, 4096, -1, -2, -7, -8):
                if op in ("<<", ">>") and not 0 <= c < 32: continue
                yield Case(f"{OPNAME[op]}_{a}:all16,{c}", f"long x; for (x = {ct.lo(a)}; x <= {ct.hi(a)}; x++) emit(f@(x));",
                           f"long f@({cname(a)} a) {{ return a {op} {lit(c, 'si')}; }}\n")
    # unary operators and conversions
    for a in TYPES:
        A = cname(a)
        for op in ("-", "~", "!", "+"):
            ok = [v for v in values(a) if not (op == "-" and ct.signed(ct.promote(a)) and v == ct.lo(ct.promote(a)))]
            dec = f"{A} v@[] = {{{','.join(lit(v, a) for v in ok)}}}; {A} g@; struct S@ {{ char c; {A} m; }};\n"
            dec += f"long f@({A} a) {{ return {op}a; }}\nlong p@({A} *a) {{ return {op}*a; }}\nlong q@(struct S@ *a) {{ return {op}a->m; }}\nlong h@() {{ return {op}g@; }}\n"
            dec += f"int c@({A} a) {{ if ({op}a) return 1; return 2; }}\nlong d@({A} a) {{ {A} x; x = {op}a; return x; }}\nint s@({A} a) {{ return sizeof({op}a) * 2 + (({op}a) - ({op}a) - 1 < 0); }}\n"
            dec += f"long n@({A} a) {{ return {op} {op} a; }}\n"
            body = f"int i; struct S@ s; for (i = 0; i < {len(ok)}; i++) {{ {A} x; x = v@[i]; g@ = x; s.m = x; emit(f@(x)); emit(p@(&x)); emit(q@(&s)); emit(h@()); emit(c@(x)); emit(d@(x)); emit(s@(x)); " \
                   + ("" if op == "-" else "emit(n@(x));") + " }\n" + "".join(f"emit({op}{lit(v, a)});\n" for v in ok)
            yield Case(f"{op}_{a}", body, dec)
        for b in TYPES:
            B = cname(b)
            vs = values(a)
            dec = f"{A} v@[] = {{{','.join(lit(v, a) for v in vs)}}}; {B} g@; struct S@ {{ char c; {B} m; char e; }}; {B} w@[3];\n"
            dec += f"long f@({A} a) {{ return ({B}) a; }}\n{B} r@({A} a) {{ return a; }}\nlong h@({B} a) {{ return a; }}\nlong p@({A} *a) {{ return ({B}) *a; }}\nlong z@({A} a) {{ {B} x; x = a; return x; }}\n"
            dec += f"long k@({A} a) {{ return ({A}) ({B}) a; }}\nint c@({A} a) {{ if (({B}) a) return 1; return 2; }}\nlong y@({A} a) {{ {B} x; {A} y; y = a; x = y; y = x; return y; }}\n"
            body = f"int i; struct S@ s; for (i = 0; i < {len(vs)}; i++) {{ {A} x; x = v@[i]; emit(f@(x)); emit(r@(x)); emit(h@(x)); emit(p@(&x)); emit(z@(x)); emit(k@(x)); emit(c@(x)); emit(y@(x)); g@ = x; emit(g@);" \
                   f" s.c = 1; s.e = 2; s.m = x; emit(s.m); emit(s.c + s.e); w@[0] = w@[2] = 5; w@[1] = x; emit(w@[0]); emit(w@[1]); emit(w@[2]); emit(sizeof(({B}) x)); }}\n" \
                   + "".join(f"emit(({B}) {lit(v, a)});\n" for v in vs)
            yield Case(f"cast_{a}_{b}", body, dec)


LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of operator/type/operand-form programs on all pairs of boundary values and all 8-bit pairs, differential against gcc and clang"
NOTE = "Exhaustive over the stated product of operators, types, operand forms and uses; values are all 8-bit pairs, the boundary values of wider types, and every 16-bit value against chosen constants. Trusts gcc -O0 and clang where they agree."


def main():
    rep = Report("C01", LEVEL, "operator x operand types x operand form x use of the result; each case runs on all defined pairs of boundary values "
                 "(8-bit operands: all pairs). Non-trivial: its sequence of observed values differs from every other case's.",
                 ["gcc -O0 -fwrapv and clang agree with C on each value; pairs whose result C leaves undefined are excluded by the model in ctypes_.evaluate"])
    e = Engine(rep, aux=tables())
    e.go(cases(), batch=120)
    return rep.finish()
