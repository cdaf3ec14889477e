"""C19: macro replacement: exhaustively enumerated macro definitions x invocations; the token sequence of wcc -E against gcc -E and clang -E."""
import itertools
from ..core import Report, THOROUGH
from ..pp import Case, PP

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of sets of macro definitions (replacement lists up to a bound over an alphabet with parameters, #, ##, the macros themselves) and of invocations; the token sequence of wcc -E must be that of gcc -E and clang -E, constraint violations must be diagnosed"
NOTE = "Token sequences on which gcc and clang disagree (unspecified nesting of replacements) and pastes that do not form a token (undefined) are not judged. Bounds: object-like pairs with replacement lists up to 2 tokens, one-parameter macros up to 3 (4 thorough), two-parameter up to 4 (5) over reduced alphabets, all pairs of adjacent tokens, all 1..3-token strings."


def name(toks): return ",".join(toks) or "-"


def obj():
    alpha = ["A", "B", "x", "1", "C"]
    lists = [t for n in (0, 1, 2) for t in itertools.product(alpha, repeat=n)]
    ins = ["A", "B", "A B", "B A A", "C", "(A)", "AB A1 1A", "x A"]
    for a, b in itertools.product(lists, repeat=2):
        if not THOROUGH and len(a) + len(b) > 3: continue
        yield Case(f"obj:{name(a)}:{name(b)}", [f"#define A {' '.join(a)}", f"#define B {' '.join(b)}", "#define C c B"], ins)
    for a in itertools.product(["A", "B", "C", "x"], repeat=2):
        for b in itertools.product(["A", "C"], repeat=2):
            for c in itertools.product(["A", "B"], repeat=2):
                yield Case(f"obj3:{name(a)}:{name(b)}:{name(c)}", [f"#define A {' '.join(a)}", f"#define B {' '.join(b)}", f"#define C {' '.join(c)}"], ["A", "B C", "C B A"])


IN1 = ["F(1)", "F(A)", "F(F(1))", "F(F)(1)", "F (1)", "F\n(1)", "F", "F()", "F((1,2))", "F( A )", "F(a b)", "F(x)", "A(1)", "F(F F)", "F(A F(2))", "F(F(A)A)", "(F)(1)", "F(B)", "F(B)(3)", "B(4)", "F F(5)", "F(()", "F(1,2)", "F(\"a\")", "F('b' \"c\\n\")", "F(\n1\n2\n)", "F(A)F(A)", "F(G)(7)", "G(F)(8)", "G(G)(F)(9)", "F(H)", "F(/**/)", "F( /* c */ 1 /* d */ )", "F(F(F)(1))", "F(-1)", "F(,)", "F(x)(x)"]


def fun1():
    alpha = ["x", "#x", "##", "F", "A", "(x)", "y"]
    for n in range(0, 6 if THOROUGH else 5):
        for t in itertools.product(alpha, repeat=n):
            if t and (t[0] == "##" or t[-1] == "##") and n > 2: continue
            for a in ("", "1", "F", "A z") if n < 5 else ("F",):
                yield Case(f"fun1:{name(t)}:{a}", [f"#define F(x) {' '.join(t)}", f"#define A {a}", "#define B F", "#define G(x) x", "#define H h h"], [i for i in IN1 if i not in ("F(()", "F(1,2)", "F(,)")])


def bad():
    for body in ("x", "1 x x", "#x", "x##y", ""):
        for i in IN1 + ["F(1,2,3)", "F(1", "F(1,(2)", "F((1)"]:
            so = i.count("(") != i.count(")")     # swallows what follows
            yield Case(f"args1:{body}:{i}", [f"#define F(x) {body}"], [i], solo=so)
            yield Case(f"args2:{body}:{i}", [f"#define F(x,y) {body}"], [i], solo=so)
            yield Case(f"args0:{body}:{i}", [f"#define F() {body}"], [i], solo=so)
    for i in ("F()", "F( )", "F(1)", "F(,)", "F", "F (\n)", "F(1,2)", "F(())", "F()()", "F(F())"):
        for body in ("", "1", "F", "F()", "()", "G", "F ( )"):
            yield Case(f"zero:{body}:{i}", [f"#define F() {body}", "#define G() F"], [i])
    for d in ("#define F(x,x) x", "#define F(x", "#define F(x,) x", "#define F(,x) x", "#define F(1) x", "#define F(x y) x", "#define", "#define 1", "#define \"a\"", "#define F(x) # y", "#define F(x) #", "#define F(x) x #", "#define F(x) ## x", "#define F(x) x ##", "#define A ##", "#define A ## 1", "#define A 1 ##", "#define A #", "#define A # x",
              "#define A(", "#define defined", "#define defined 1", "#undef defined", "#undef", "#undef 1", "#define F(x) # x", "#define F(x)#x", "#define F(x)x", "#define F( x , y ) x", "#define F(x) #/**/x", "#define A(x)", "#define A (x)", "#define A/**/(x) y", "#define A/**/x", "#define A-1", "#define\tA\t1", "# define A 1", "/**/#/**/define/**/A/**/1", "#define A 1 /* a\nb */ 2", "#define A 1 // c",
              "#define A(x,y,z) z y x", "#define A 1\n#define A 1", "#define A 1 2\n#define A 1  2", "#define A(x) x\n#define A(x) x", "#define A 1\n#undef A\n#define A 2", "#define A 1\n#undef A", "#undef A", "#define A\n#define A", "#undef A junk"):
        yield Case(f"def:{d}", [d], ["A", "A(1)", "A(1,2,3)", "F(1)", "F(A)"], ["#undef A", "#undef F"])


IN2 = ["F(1,2)", "F(,)", "F(a,)", "F(,b)", "F(A,A)", "F((a,b),c)", "F(a b,c d)", "F(A,1)", "F(a,A)", "F(F,F)", "F(F(1,2),3)", "F(1,F(2,3))", "F( a , b )", "F(A a,b A)", "F(F,(1,2))", "F(a,B)", "F(B,)", "F(,A)", "F(a A,A b)", "F(x,y)", "F(y,x)", "F(F(,),)", "F(1 2,3 4)(5,6)", "F(\"s\",'c')"]


def fun2():
    alpha = ["x", "##", "y", "#x", "#y", "A", "k"]
    for n in range(1, 6 if THOROUGH else 5):
        for t in itertools.product(alpha if n < 5 else alpha[:3], repeat=n):
            if t[0] == "##" or t[-1] == "##" or any(p == q == "##" for p, q in zip(t, t[1:])): continue
            if n > 3 and "##" not in t: continue
            for a in ("1", "") if n < 4 else ("1",):
                yield Case(f"fun2:{name(t)}:{a}", [f"#define F(x,y) {' '.join(t)}", f"#define A {a}", "#define B F", "#define kA k2", "#define ab pasted", "#define S(x) #x", "#define T(x) S(x)"], IN2 + ["T(F(1,2))", "T(F(a b, c))"])


def mutual():
    bodies = ["x", "G(x)", "F(x)", "G", "F", "x x", "x(x)", "G(F(x))", "F(G(x))", "H", "H(x)", "x G", "(x)", "G x", "H x", "x(1)", "G(x)(x)", ""]
    hs = ["F", "G", "F(1)", "F G", "H", "x", "G(", "F H", "( F )", ")", "F(H)"]
    ins = ["F(1)", "G(1)", "H", "H(2)", "F(G)(1)", "G(F)(1)", "F(H)", "G(F(G(1)))", "F(F)(G)(3)", "F(H)(H)", "F(G(H))", "H(H)(1)", "F(1)(2)(3)", "G G(1) F", "H 1)", "F(x)(F)(x)", "F(a)G(b)"]
    for f in bodies:
        for g in bodies:
            for h in hs if THOROUGH else hs[:6]:
                yield Case(f"mut:{f}:{g}:{h}".replace(" ", "_"), [f"#define F(x) {f}", f"#define G(x) {g}", f"#define H {h}"], ["H 1)", "H (1) 2)"] if h == "G(" else ins)


# no backslash outside of literals: the result of # may not be a string then
SPELL = ["a", "1", '"s"', "'c'", '"\\n"', "'\\''", '"\\\\"', "+", "-", "->", ".5", "L'x'", "(b)", '"\\""', "#", "##", "@", "'\"'", "1.e+5", "<", "..."]
SPACE = ["", " ", "/**/", "  \t ", "\n"]


def strings():
    d = ["#define S(x) #x", "#define T(x) S(x)", "#define a A2", "#define P(x, y) #x #y x"]
    for a in SPELL:
        yield Case(f"str:{a}", d, [f"S({p}{a}{q})" for p in SPACE for q in SPACE if not (a[0] == "#" and p == "\n")] + [f"T({a})"])
        for b in SPELL:
            yield Case(f"str:{a}:{b}", d, [f"S({a}{s}{b})" for s in SPACE if not (b[0] == "#" and s == "\n")] + [f"T({a} {b})", f"P({a},{b})"])
            if THOROUGH or a in SPELL[:9] and b in SPELL[:6]:
                for c in SPELL if THOROUGH else SPELL[:9]:
                    yield Case(f"str:{a}:{b}:{c}", d, [f"S({a}{s}{b}{t}{c})" for s, t in ((" ", ""), ("", " "), ("/**/", "\t")) ])


TOKS = ["a", "L", "x1", "1", "1.5", ".5", "1e", "0x1p", '"s"', "'c'", 'L"w"', "if", "define", "defined", "line", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "=", "<", ">", "?", ":", ";", ".", "[", "]", "{", "}", "#", "\\", "@",
        "++", "--", "->", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "...", "..", "##"]


def adjacent():
    for a in TOKS:
        for b in TOKS:
            if a in ("#", "##"): continue
            d = [f"#define A {a}" , f"#define B {b}" if b not in ("##",) else "#define B", "#define I(x) x", "#define E", "#define J(x, y) x y"] if a not in ("##",) else []
            if "\\" in (a, b): d[0], d[1] = "#define A a", "#define B b"
            lit = a + b
            ins = [f"I({a}){b}", f"{a}I({b})", f"I({a})I({b})", f"{a}E{b}" if a[-1] not in "abcdefghijklmnopqrstuvwxyzL15" else "", "A B", "I(A)I(B)", "(A)B", "E A E B E", f"J({a},{b})", f"I({a}/**/{b})"]
            if lit.startswith("//") or "/*" in lit or lit.endswith("//"): ins = [i for i in ins if lit not in i and lit not in i.replace("E", "")]
            yield Case(f"adj:{a}:{b}", d, [i for i in ins if i and not (i.startswith("#"))])


def paste():
    for a in TOKS:
        for b in TOKS:
            if a in ("#", "##", "\\") or b in ("#", "##", "\\"): continue
            yield Case(f"paste:{a}:{b}", ["#define P(x, y) x##y", "#define Q(x, y) P(x, y)", "#define ab 7", f"#define N {a} ## {b}", "#define a1 AONE", "#define AONE(x) [x]"], [f"P({a},{b})", f"Q({a},{b})", "N", f"P({a},{b})(2)", f"P(,{b})", f"P({a},)", f"z P({a},{b}) z"])
    ins = ["P(a,b)", "P(a b,c d)", "P(P,(1,2))", "P(a,b c) 3", "Q(F,G)", "P(F,(1))", "P(,F)(1)", "P(F,)(1)", "P(f,f)(1)", "P(P(a,b),c)", "Q(Q(a,b),c)", "P(x,y)", "Q(a,P(b,c))", "P(-,>) P(<,<=) P(.,5)", "P(L,'a') P(L,\"s\")", "P(1,e) + P(1.,5)", "P(F,F)(2)", "X3(a,b,c)", "X3(,b,)", "X3(,,)", "X3(a,,c)", "X3(,,c)", "X3(1,2,3)", "Y(1)", "Y()", "Y(a b)", "Z(a,b)", "W(a)", "W()", "V(a)", "V(F)(1)"]
    yield Case("paste:more", ["#define P(x,y) x##y", "#define Q(x,y) P(x,y)", "#define F(x) <x>", "#define FF F", "#define ff(x) {x}", "#define abc ABC", "#define bc BC", "#define ab AB", "#define X3(x,y,z) x##y##z", "#define Y(x) x##x x#x", "#define Z(x,y) x##y x y #x#y", "#define W(x) a##x##b x", "#define V(x) x##1 x##F F##x"], ins)


KEYW = ["if", "int", "while", "define", "undef", "include", "ifdef", "ifndef", "elif", "else", "endif", "line", "error", "pragma", "warning", "L", "u8", "_", "__x__", "F", "a" * 63, "asm", "main", "NULL", "sizeof", "linux", "unix"]


def names():
    for n in KEYW:
        yield Case(f"name:{n}", [f"#define {n} 1 {n}", f"#define I(x) x", f"#define S(x) #x"], [n, f"I({n})", f"S({n})", f"{n}1 {n} x{n}"])
        yield Case(f"namef:{n}", [f"#define {n}(a, b) b a {n}", f"#define I(x) x"], [f"{n}(1,2)", f"{n}", f"I({n})(1,2)", f"I({n}(3,4))", f"{n}({n}(1,2),{n})"] if n != "a" * 63 else [f"{n}(1,2)"])
        if n not in ("F",): yield Case(f"namep:{n}", [f"#define M({n}, y) {n} y {n}##y #{n} y##{n}", f"#define F 9"], ["M(1,2)", "M(a b,c)", "M(F,F)", "M(,)"])


def layout():
    d = ["#define F(x,y) [x|y]", "#define A F", "#define E", "#define N(x) F(x,", "#define O (", "#define CL )", "#define CM ,"]
    ins = ["F\n(1\n,\n2)\nx", "F /**/ (1,2)", "F\n\n\n(1,2)", "A\n(1,2)", "F E (1,2)", "F(1,2", "N(1) 2)", "A O 1,2)", "F(1 CM 2)", "F(CM,CM)", "F(O,1)", "F O 1,2 CL", "E F(1,2) E", "F(E,E)", "F(\n\n,\n\n)", "F(1,2)F(3,4)", "F(F(1,2),F(3,4))", "F(F(F(1,2),3),4)", "/* F(1,2) */ F(/*,*/1,2)", "\"F(1,2)\" 'F' F('(',\")\")", "F((((1)),2),3)", "F([1,2],3)",
           "F({1,2})", "A A(1,2)", "F(1,2) // F(3,4)", "E", "E E E", "x E E y", "F (1,2) F", "F;(1,2)", "F\n;", "A\n\nA\n(1,2)", "E\n\nE\nF\n(\nE 1\n,\n2 E\n)\nE"]
    for i in ins: yield Case(f"lay:{i}".replace("\n", "\\n"), d, [i], solo=i == "F(1,2")
    for i, j in itertools.product(ins[:24], repeat=2): yield Case(f"lay:{i}|{j}".replace("\n", "\\n"), d, [f"{i}\n{j}\n"], solo="F(1,2" in (i, j))


def many():
    for n in (1, 2, 3, 10, 31, 32, 100, 126, 127, 128, 255, 256, 257, 500):
        ps = ",".join(f"p{i}" for i in range(n))
        yield Case(f"params:{n}", [f"#define F({ps}) p{n - 1} p0 #p{n // 2} p0##p{n - 1}"], ["F(" + ",".join(f"a{i}" for i in range(n)) + ")", "F(" + "," * (n - 1) + ")" if n > 1 else "F()"])
        yield Case(f"chain:{n}", [f"#define C{i} C{i + 1} {i}" for i in range(n)], ["C0"])
        yield Case(f"nest:{n}", ["#define F(x) x+", "#define G(x) #x"], ["F(" * n + "1" + ")" * n, "G(" + "(" * n + ")" * n + ")"])
        yield Case(f"long:{n}", ["#define F(x) x x"], ["F(" + " ".join(f"t{i}" for i in range(n)) + ")"])
        yield Case(f"obj{n}:body", ["#define A " + " ".join(f"t{i}" for i in range(n))], ["A A"])


def main():
    rep = Report("C19", LEVEL, "a pair of definitions and invocation whose token sequence gcc and clang agree on", ["gcc -E and clang -E agree on the tokens"])
    pp = PP(rep)
    fams = [obj(), fun1(), bad(), fun2(), mutual(), strings(), adjacent(), paste(), names(), layout(), many()]
    cs = [c for f in fams for c in f]
    for c in cs[:3] + cs[-3:]: rep.sample(c.key)
    pp.go(cs)
    return rep.finish()
