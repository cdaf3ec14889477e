"""C05: every control-flow program up to a size over all statement kinds (structured programs, switches, goto graphs), explored over every
vector of condition outcomes up to a depth, on the compiled code; traces compared with those of a reference compiler."""
import itertools
from .. import core
from ..diff import Case, Engine
from ..core import Report

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of compiled programs: bounded-exhaustive program enumeration times exhaustive depth-first exploration of all condition outcomes, traces compared with gcc and clang"
NOTE = "Programs: all statement trees up to 2 compound statements over the full leaf alphabet, 3 over a reduced one (4 in the thorough tier), all 3-block and reduced 4-block goto graphs, enumerated switches. Every path up to 9 (11) choices is run on the real compiled code; longer paths are cut and their prefixes compared. Trusts gcc and clang where they agree."

DEPTH = 11 if core.THOROUGH else 9


class G:
    """Renders statement trees, numbering the emits."""
    def __init__(self): self.n = 0; self.loopvar = 0

    def e(self):
        self.n += 1
        return f"emit({self.n});"

    def block(self, t):
        k = t[0]
        if k == "emit": return self.e()
        if k in ("break", "continue"): return f"{{ {self.e()} {k}; }}"
        if k == "return": return f"{{ {self.e()} return {self.n}; }}"
        if k == "empty": return ";"
        if k == "seq": return "{ " + " ".join(self.block(x) for x in t[1:]) + " }"
        if k == "wrap": return "{ " + self.e() + " " + self.block(t[1]) + " " + self.e() + " }"
        c = t[1]
        if k == "if": return f"if ({c}) {self.block(t[2])}"
        if k == "ifelse": return f"if ({c}) {self.block(t[2])} else {self.block(t[3])}"
        if k == "while": return f"while ({c}) {{ {self.e()} {self.block(t[2])} }}"
        if k == "whilebare": return f"while ({c}) {self.block(t[2])}"
        if k == "do": return f"do {{ {self.e()} {self.block(t[2])} }} while ({c});"
        if k == "dobare": return f"do {self.block(t[2])} while ({c});"
        if k == "for": return f"for ({self.e()[:-1]}; {c}; {self.e()[:-1]}) {self.block(t[2])}"
        if k == "forinf": return f"for (;;) {{ if ({c}) break; {self.block(t[2])} }}"
        if k == "forempty": return f"for (; {c};) {self.block(t[2])}"
        if k == "switch":
            p = t[2]
            return f"switch (pick(3)) {{ case 0: {self.block(t[3])} {'break;' if 'b' in p else ''} case 1: {self.e()} {'default:' if 'd' in p else 'case 2:' if 'c' in p else ''} {self.block(t[4])} }}"
        raise KeyError(k)


LEAVES = ["emit", "break", "continue", "return", "empty"]
COMP = ["if", "ifelse", "while", "do", "for", "forinf", "switch"]
LOOPS = {"while", "do", "for", "forinf", "whilebare", "dobare", "forempty"}


def leaves(alpha, loop, sw):
    for l in alpha:
        if l == "continue" and not loop: continue
        if l == "break" and not (loop or sw): continue
        yield (l,)


def stmts(k, loop, sw, alpha, comp, conds):
    """Statements with exactly k compound nodes."""
    if k == 0:
        yield from leaves(alpha, loop, sw)
        return
    for kind in comp:
        L = loop or kind in LOOPS
        S = (sw or kind == "switch") if kind not in LOOPS else False
        for c in conds:
            if kind in ("ifelse", "switch"):
                for i in range(k):
                    for a in stmts(i, L, S, alpha, comp, conds):
                        for b in stmts(k - 1 - i, L, S, alpha, comp, conds):
                            if kind == "switch":
                                for p in ("bd", "c", "bc", "d"): yield (kind, c, p, wrapc(a), wrapc(b))
                            else: yield (kind, c, wrapc(a), wrapc(b))
            else:
                for a in stmts(k - 1, L, S, alpha, comp, conds): yield (kind, c, wrapc(a))
    if k >= 2:
        for i in range(1, k):
            for a in stmts(i, loop, sw, alpha, comp, conds):
                for b in stmts(k - i, loop, sw, alpha, comp, conds):
                    if a[0] == "seq": continue
                    yield ("seq", a, b)


def wrapc(t):
    """Compound bodies get an emit before and after."""
    return ("wrap", t) if t[0] in COMP or t[0] == "seq" else t


def text(t):
    if isinstance(t, tuple):
        h = t[0]
        return h if len(t) == 1 else h + "(" + ",".join(text(x) for x in t[1:]) + ")"
    return t.replace("choose()", "?")


def mk(key, body, pre=""):
    return Case(key, f"explore(w@, {DEPTH});", f"static int f@(void) {{ {pre}emit(1000); {body} emit(1001); return 0; }} static void w@(void) {{ emit(f@()); }}")


def structured(k, alpha, comp, conds=("choose()",)):
    for t in stmts(k, False, False, alpha, comp, conds):
        yield mk(f"s{k}:" + text(t), G().block(t))


CONDS = ["choose()", "!choose()", "choose() && choose()", "choose() || choose()", "(choose() && !choose()) || choose()", "!(choose() || choose())", "(emit(50), choose())", "choose() ? choose() : 0", "choose() ? 1 : choose()", "choose() == 0", "choose() != 0", "choose() > 0",
         "(char) choose()", "(long) choose() << 40", "choose() * 0.5", "choose() ? &gz : (int *) 0", "choose() + 0.0f", "(choose() ? 0.25L : 0.0L)", "1 && choose()", "0 || choose()", "choose() && 1", "(unsigned char) (choose() << 8) || choose()", "x = choose()", "(x = choose(), !x)", "-choose()", "~(choose() - 1)", "choose() & 1", "choose() ^ 1", "1 - choose()", "!!choose()", "!!!choose()", "choose() == choose()", "choose() < choose()"]


def cond_cases():
    """Condition forms in every controlling position; constants too."""
    for c in CONDS:
        for kind in ("if", "ifelse", "while", "do", "for", "forinf", "whilebare", "dobare", "forempty"):
            for leaf in ("emit", "continue", "break"):
                if kind in ("if", "ifelse") and leaf != "emit": continue
                t = (kind, c, (leaf,), ("emit",)) if kind == "ifelse" else (kind, c, (leaf,))
                yield mk(f"cond:{kind}:{leaf}:{c}", "int x; " + G().block(t))
        yield mk(f"cond:ternary:{c}", f"int x; emit(({c}) ? 5 : 6); emit(!({c})); return ({c}) ? 7 : 8;")
        yield mk(f"cond:nested:{c}", f"int x; if ({c}) if ({c}) emit(1); else emit(2); else if ({c}) emit(3); else emit(4);")
        yield mk(f"cond:empty:{c}", f"int x; if ({c}) ; else emit(2); if ({c}) {{}} if ({c}) ; emit(3); while ({c}) ; emit(4);")
    for c in ("1", "0", "1 == 1", "2 < 1", "0.0", "0.5", "!0", "\"s\" != 0", "sizeof(int) == 4", "-1", "0l", "(char) 256", "1 ? 0 : 1", "&gz != 0"):
        for fmt in ("if (%s) emit(1);", "if (%s) emit(1); else emit(2);", "while (%s) { emit(1); if (choose()) break; }", "do { emit(1); if (choose()) break; if (choose()) continue; emit(2); } while (%s);", "for (emit(1); %s; emit(2)) { if (choose()) break; if (choose()) continue; emit(3); }", "for (; choose(); ) if (%s) emit(4); else break;",
                    "if (!(%s)) emit(1); else { emit(2); return 3; }", "while (%s && choose()) emit(1);", "while (%s || choose()) { emit(1); if (choose()) return 4; }", "if (choose()) { if (%s) return 1; } else { emit(3); }", "if (%s) { L1: emit(1); } else { emit(2); if (choose()) goto L1; }"):
            yield mk(f"const:{c}:{fmt}", fmt % c)


def switches():
    """Switch statements: every placement of labels over a small body, types and values."""
    # which labels stand before each of 4 statements
    items = ["case 0:", "case 1:", "case 2:", "default:"]
    for perm in itertools.permutations(range(4), 4):
        for breaks in range(16):
            body = ""
            for j, i in enumerate(perm): body += f" {items[i]} emit({10 + i}); {'break;' if breaks >> j & 1 else ''}"
            yield mk(f"sw:perm:{perm}:{breaks}", f"switch (pick(4)) {{{body} }}")
    for groups in itertools.product(range(3), repeat=4):
        body = " ".join(f"{''.join(items[i] + ' ' for i in range(4) if groups[i] == g)} emit({20 + g}); {'break;' if g == 1 else ''}" for g in range(3))
        yield mk(f"sw:groups:{groups}", f"switch (pick(5)) {{ emit(9); {body} }}")
    for drop in range(16):
        body = " ".join(f"{items[i]} emit({20 + i});" for i in range(4) if drop >> i & 1)
        yield mk(f"sw:drop:{drop}", f"switch (pick(5)) {{ {body} }} emit(3); switch (pick(5)) {{ {body} break; }}")
    types = {"char": (-128, -1, 0, 65, 127), "unsigned char": (0, 1, 127, 128, 255), "short": (-32768, -1, 0, 255, 32767), "unsigned short": (0, 32767, 32768, 65535, 7), "int": (-2147483648, -1, 0, 256, 2147483647), "unsigned": (0, 1, 2147483647, 2147483648, 4294967295),
             "long": (-(1 << 63), -1, 0, 1 << 31, (1 << 63) - 1), "unsigned long": (0, 1, 1 << 31, 1 << 63, (1 << 64) - 1), "enum SE": (0, 1, 2, 3, 4)}
    for t, vals in types.items():
        sfx = {"long": "l", "unsigned long": "ul", "unsigned": "u"}.get(t, "")
        def lit(v): return "(-9223372036854775807l - 1)" if v == -(1 << 63) else f"({v}{sfx})"
        for casesel in range(1, 32):
            body = " ".join(f"case {lit(v)}: emit({30 + i}); {'break;' if (i + casesel) % 2 else ''}" for i, v in enumerate(vals) if casesel >> i & 1)
            dflt = " default: emit(40);" if casesel % 3 else ""
            arr = ", ".join(lit(v) for v in vals)
            yield mk(f"sw:type:{t}:{casesel}", f"static {t} tab[] = {{ {arr} }}; {t} v = tab[pick(5)]; switch (v) {{ {body}{dflt} }} switch (tab[pick(5)]) {{ {body}{dflt} }} switch (({t}) v) {{ {dflt} {body} }}")
        # case constants converted to the promoted type
    for e, cs in (("(char) (pick(2) ? 200 : 56)", ("-56", "56", "200")), ("(unsigned char) (pick(2) ? 200 : -56)", ("200", "-56")), ("pick(2) ? 4294967295u : 1u", ("-1", "1")), ("pick(2) ? -1 : 1", ("4294967295u", "1")), ("(long) -pick(2)", ("-1", "4294967295u", "0")), ("pick(3) - 1", ("-1", "0x100000000", "1")),
                  ("(unsigned long) (pick(3) - 1)", ("-1", "0", "1u")), ("pick(2) + 'a'", ("'a'", "'b'")), ("(short) (pick(2) << 15)", ("-32768", "0")), ("!pick(2)", ("0", "1")), ("pick(3) > 1", ("0", "1")), ("pick(2) ? 2 : pick(2)", ("0", "1", "2"))):
        yield mk(f"sw:conv:{e}", f"switch ({e}) {{ " + " ".join(f"case {c}: emit({i}); break;" for i, c in enumerate(cs)) + " default: emit(99); }")
    more = ["switch (pick(3)) case 1: emit(5); emit(6);", "switch (pick(3)) { } emit(4);", "switch (pick(3)) ; emit(5);", "switch (pick(2)) { default: emit(1); }", "switch (pick(2)) { emit(2); }", "switch (pick(2)) { emit(2); case 1: ; }",
            "switch (pick(3)) { case 0: { emit(1); case 1: emit(2); } break; case 2: emit(3); }", "switch (pick(4)) { case 0: do { emit(0); case 1: emit(1); case 2: emit(2); } while (choose()); break; default: emit(3); }",
            "switch (pick(4)) { case 0: while (choose()) { emit(0); case 1: emit(1); if (choose()) continue; case 2: emit(2); if (choose()) break; } emit(9); default: emit(3); }",
            "switch (pick(4)) { case 0: for (emit(7); choose(); emit(8)) { case 1: emit(1); if (choose()) continue; if (choose()) break; case 2: emit(2); } emit(5); break; case 3: emit(3); }",
            "switch (pick(3)) { case 0: if (choose()) { case 1: emit(1); } else { case 2: emit(2); } emit(3); }",
            "switch (pick(2)) { case 0: switch (pick(3)) { case 0: emit(1); break; case 1: emit(2); default: emit(3); } emit(4); break; case 1: switch (pick(2)) { case 1: emit(5); } emit(6); }",
            "switch (pick(2)) { case 0: switch (pick(3)) { case 0: emit(1); case 5: emit(8); } case 1: emit(6); default: emit(7); } switch (pick(2)) { case 1: emit(9); }",
            "while (choose()) { switch (pick(3)) { case 0: continue; case 1: break; default: emit(1); } emit(2); }", "do { switch (pick(3)) { case 0: continue; case 1: break; default: emit(1); return 3; } emit(2); } while (choose());",
            "for (emit(1); choose(); emit(2)) { switch (pick(3)) { case 0: continue; case 1: break; default: emit(3); for (; choose();) { emit(4); if (choose()) break; } } emit(5); }",
            "switch (pick(3)) { case 0: while (choose()) { if (choose()) break; emit(1); } emit(2); break; case 1: goto out; default: emit(3); } emit(4); out: emit(5);",
            "switch (pick(2)) { case 1: L: emit(1); if (choose()) goto L; } if (choose()) goto M; emit(3); M: emit(4);", "int x = pick(3); switch (x) { int y; case 0: y = 5; emit(y); break; case 1: y = 6; emit(y + x); }", "switch (pick(4)) { case 1 + 1: emit(1); break; case sizeof(char): emit(2); break; case SB - 1: emit(3); break; case (int) 3.9: emit(4); }",
            "switch (pick(4)) { case 3: case 2: emit(1); case 1: case 0: emit(2); }", "switch (pick(3)) { case 0: return 10; case 1: return 11; } return 12;", "switch (pick(3)) { case 0: case 1: if (choose()) break; emit(3); default: if (choose()) break; emit(4); } emit(5);",
            "int n = 7; switch (n % 4) { case 0: do { emit(n); case 3: emit(n + 10); case 2: emit(n + 20); case 1: emit(n + 30); } while (choose() && --n > 0); }", "switch (emit(77), pick(2)) { case 0: emit(1); break; case 1: emit(2); }", "switch (choose() && choose()) { case 0: emit(1); break; case 1: emit(2); }"]
    for m in more: yield mk("sw:" + m, m)
    for n in (1, 2, 3, 10, 50, 200):
        body = " ".join(f"case {i * 3 - 20}: emit({i}); {'break;' if i % 3 else ''}" for i in range(n))
        yield mk(f"sw:many:{n}", f"int i; for (i = -25; i < {n * 3}; i++) switch (i) {{ {body} default: emit(-1); }}")
        body = " ".join(f"case {i * 3 - 20}: emit({i}); {'break;' if i % 3 else ''}" for i in reversed(range(n)))
        yield mk(f"sw:manyr:{n}", f"int i; for (i = -25; i < {n * 3}; i++) switch (i) {{ default: emit(-1); {body} }}")


def gotos(n, terms):
    """All graphs of n blocks with the given terminators."""
    for combo in itertools.product(terms(n), repeat=n):
        s = ""
        for i, t in enumerate(combo):
            s += f"L{i}: emit({i}); "
            if t[0] == "ret": s += f"return {i}; "
            elif t[0] == "jmp": s += f"goto L{t[1]}; "
            elif t[0] == "fall": s += f"if (choose()) goto L{t[1]}; "
            elif t[0] == "nfall": s += f"if (!choose()) goto L{t[1]}; "
            elif t[0] == "br": s += f"if (choose()) goto L{t[1]}; else goto L{t[2]}; "
        # a cycle without choices never ends: leave those out
        key = " ".join(t[0] + "".join(map(str, t[1:])) for t in combo)
        if diverges(combo): continue
        yield mk(f"goto{n}:" + key, s)


def diverges(combo):
    for i in range(len(combo)):
        j, seen = i, set()
        while j not in seen and j < len(combo) and combo[j][0] == "jmp":
            seen.add(j)
            j = combo[j][1]
        if j in seen: return True
    return False


def t3(n): return [("ret",)] + [("jmp", j) for j in range(n)] + [("br", j, k) for j in range(n) for k in range(n) if j != k] + [("fall", j) for j in range(n)]
def t4(n): return [("ret",)] + [("fall", j) for j in range(n)] + [("jmp", (1))] + [("nfall", 2)]
def t5(n): return [("ret",)] + [("fall", j) for j in range(n)] + [("jmp", j) for j in range(n)]


def goto_extra():
    more = ["goto L; { int x = 5; L: x = 6; emit(x); }", "{ L: emit(1); if (choose()) goto L; } emit(2);", "if (choose()) goto in; while (choose()) { emit(1); in: emit(2); } emit(3);", "if (choose()) goto in; for (emit(0); choose(); emit(9)) { emit(1); in: emit(2); } emit(3);",
            "if (choose()) goto in; do { emit(1); in: emit(2); } while (choose()); emit(3);", "if (choose()) goto in; if (choose()) { emit(1); in: emit(2); } else emit(3);", "if (choose()) goto in; if (choose()) { emit(1); } else { emit(3); in: emit(2); }", "while (choose()) { while (choose()) { if (choose()) goto out; emit(1); } emit(2); } out: emit(3);",
            "goto a; b: emit(2); goto c; a: emit(1); goto b; c: emit(3);", "a: b: c: emit(1); if (choose()) goto a; if (choose()) goto b; if (choose()) goto c;", "emit(1); goto end; emit(2); end: ;", "a: if (choose()) { emit(1); goto a; } else if (choose()) { emit(2); goto b; } emit(3); b: emit(4);",
            "for (;;) { for (;;) { if (choose()) goto x; if (choose()) break; emit(1); } emit(2); if (choose()) break; continue; x: emit(3); if (choose()) return 5; }", "int i = 0; again: emit(i); if (++i < 3) goto again; emit(i);", "if (choose()) { if (choose()) goto e1; goto e2; } e1: emit(1); e2: emit(2);", "switch (pick(3)) { case 0: goto c1; case 1: emit(5); c1: emit(1); break; case 2: goto c1; } emit(9);",
            "do { if (choose()) goto next; emit(1); if (choose()) continue; next: emit(2); } while (choose());", "{ { { goto deep; } } } emit(1); { { deep: emit(2); } }"]
    for m in more: yield mk("goto:" + m, m)
    # labelled statements in every position of a substatement, without braces
    pos = ["if (choose()) {}", "if (choose()) {} else emit(4);", "if (choose()) emit(4); else {}", "while (choose()) {}", "do {} while (choose());", "for (; choose();) {}", "switch (pick(4)) {}", "switch (pick(4)) if (choose()) {}", "switch (pick(4)) while (choose()) {}", "if (choose()) if (choose()) {} else emit(5);"]
    labs = ["l:", "l: m:", "case 1:", "case 1: case 2:", "case 1: default:", "default:", "default: case 2:", "l: case 1:", "case 1: l:", "default: l: case 2: m:"]
    bodies = ["emit(1);", ";", "{ emit(1); emit(2); }", "if (choose()) emit(1); else emit(2);", "if (choose()) emit(1);", "while (choose()) emit(1);", "x = 7;", "return 3;", "break;"]
    for p in pos:
        for la in labs:
            if "switch" not in p and ("case" in la or "default" in la): continue
            for b in bodies:
                if b == "break;" and not any(w in p for w in ("while", "do", "for", "switch")): continue
                st = f"{la} {b}"
                g = [""] + ([" if (choose()) goto l;"] if "l:" in la else [])
                for e in g:
                    k = f"{p}|{la}|{b}|{e}"
                    yield mk("lab:" + k.replace(" ", ""), "int x = 0; " + p.replace("{}", st, 1) + f" emit(x); emit(9);{e}")


def deep():
    """Nesting depth."""
    for n in (2, 5, 10, 25):
        for kind in ("if", "while", "do", "for", "switch", "elseif", "block"):
            s = "emit(1);"
            for i in range(n):
                s = {"if": f"if (pick(2) || {i}) {{ {s} emit({i}); }}", "while": f"while (i{i}++ < 1) {{ {s} emit({i}); if (i{i} > 5) continue; }}", "do": f"do {{ {s} emit({i}); }} while (i{i}++ < 0);", "for": f"for (i{i} = 0; i{i} < 1; i{i}++) {{ {s} emit({i}); }}",
                     "switch": f"switch (i{i}) {{ case 1: emit(99); case 0: {s} break; default: emit(98); }} emit({i});", "elseif": f"if (i{i} == 1) emit({i}); else {s}", "block": f"{{ int i = {i}; {s} emit(i); }}"}[kind]
            yield mk(f"deep:{kind}:{n}", s, "".join(f"int i{i} = 0; " for i in range(n)))
    for n in (3, 20, 100):
        s = "".join(f"if (i == {i}) emit({i}); else " for i in range(n)) + "emit(-1);"
        yield mk(f"deep:chain:{n}", f"int i; for (i = -1; i <= {n}; i++) {s}")
        yield mk(f"deep:seq:{n}", "int i; for (i = 0; i < 3; i++) { " + "".join(f"if (i == {i % 3}) emit({i}); " for i in range(n)) + "}")


def returns():
    for rt, vals in {"int": ["1", "x", "x + 1", "gz"], "char": ["300", "x"], "long": ["x", "-1"], "double": ["1", "x", "0.5f"], "float": ["x", "2.5"], "unsigned char": ["-1"], "struct R": ["r"], "int *": ["&gz", "0"], "long double": ["x", "1.5"]}.items():
        for v in vals:
            em = {"double": "emitd(g@(1)); emitd(g@(0));", "float": "emitf(g@(1)); emitf(g@(0));", "long double": "emitld(g@(1)); emitld(g@(0));", "struct R": "emit(g@(1).a); emit(g@(0).b);", "int *": "emit(g@(1) == &gz); emit(g@(0) == 0);"}.get(rt, "emit(g@(1)); emit(g@(0));")
            yield Case(f"return:{rt}:{v}", em, f"static {rt} g@(int x) {{ struct R r; r.a = x; r.b = 7; if (x) return {v}; emit(3); while (1) {{ if (!x) return {v}; }} }}")
    yield Case("return:void", "g@(0); g@(1); h@();", "static void g@(int x) { emit(1); if (x) return; emit(2); } static void h@(void) { }")
    yield Case("return:main-fallthrough", "emit(g@(1));", "static int g@(int x) { if (x) { return 4; } else { emit(1); } return 5; emit(7); }")


def cases():
    for k in (1, 2): yield from structured(k, LEAVES, COMP)
    yield from structured(3, ["emit", "break"], ["if", "ifelse", "while", "do", "for"])
    yield from structured(3, ["continue", "break"], ["if", "while", "do", "for"])
    if core.THOROUGH:
        yield from structured(3, ["emit", "break", "continue", "return"], ["if", "ifelse", "while", "do", "for", "switch"])
        yield from structured(4, ["emit", "continue"], ["if", "while", "do"])
    yield from cond_cases()
    yield from switches()
    yield from gotos(2, t3)
    yield from gotos(3, t3)
    yield from gotos(4, t5 if core.THOROUGH else t4)
    yield from goto_extra()
    yield from deep()
    yield from returns()


PRO = "static int gz = 5; enum SE { SA, SB, SC, SD, SF }; struct R { int a; long b; };\n"


def main():
    rep = Report("C05", LEVEL, "distinct = distinct trees of traces (one program's traces over all choice vectors)", ["gcc and clang implement C where they agree"])
    Engine(rep, PRO).go(cases(), batch=120)
    rep.states = rep.evals + rep.transitions
    rep.traces = rep.paths
    return rep.finish()
