"""C15: every declarator up to a derivation depth, in every declaration context, and every order of declaration specifiers: sizes, strides,
accesses and calls through the declared thing compared with gcc and clang, and no diagnostics."""
import itertools
from ..core import Report, THOROUGH
from ..diff import Case, Engine

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of declarators (every valid derivation of pointers, arrays and functions up to a depth) times declaration contexts, and of specifier permutations; sizes, strides and values compared with gcc and clang, diagnostics counted as failures"
NOTE = "Derivations up to depth 4 (thorough 5) over four base types; typedefs split at every level; const and volatile at every pointer level; C89 declarators without variable length arrays."

# base: (spelling, emit, constant(s))
BASES = {"c": ("char", "emit(%s);", lambda n: str(n % 100 + 1)), "i": ("int", "emit(%s);", lambda n: str(n * 1001)),
         "d": ("double", "emitd(%s);", lambda n: f"{n}.5"), "s": ("struct S15", "emit(%s.b);", lambda n: "{" + f"{n}, {n * 7}, {n}" + "}"),
         "u": ("unsigned long", "emitu(%s);", lambda n: f"{n}7000000001ul")}
PRO = "struct S15 { char a; int b; short c; };\nint e15;\n"
ARGS = {"F": ("void", ""), "G": ("int, char *", "1, \"x\""), "H": ("double, ...", "1.5, 2")}


class T:
    """steps: outermost derivation first: 'P' (+ quals), an int n, or 'F' / 'G' / 'H'"""
    def __init__(self, base, steps, bq="", names=None): self.base, self.steps, self.bq = base, tuple(steps), bq

    def sub(self, k=1): return T(self.base, self.steps[k:], self.bq)
    @property
    def head(self): return self.steps[0] if self.steps else None
    @property
    def isptr(self): return isinstance(self.head, str) and self.head[0] == "P"
    @property
    def isarr(self): return isinstance(self.head, int)
    @property
    def isfun(self): return self.head in ("F", "G", "H")

    def declarator(self, d, steps=None, redundant=False):
        """d with the steps applied, outermost first"""
        for st in (self.steps if steps is None else steps):
            if isinstance(st, str) and st[0] == "P":
                q = {"": "", "c": " const ", "v": " volatile ", "cv": " const volatile "}[st[1:]]
                d = "*" + q + d
                ptr = True
            else:
                if d.startswith("*"): d = "(" + d + ")"
                d += f"[{st}]" if isinstance(st, int) else f"({ARGS[st][0]})"
            if redundant and not d.startswith("(") and d: d = "(" + d + ")"
        return d

    def decl(self, d, redundant=False): return self.bq + BASES[self.base][0] + " " + self.declarator(d, redundant=redundant)
    def name(self): return self.base + ("k" if self.bq else "") + ":" + ".".join(str(x) for x in self.steps)


def words(depth):
    """valid derivations, outermost first"""
    out = [()]
    level = [()]
    for _ in range(depth):
        nxt = []
        for w in level:
            # prepend an outer derivation of w
            inner = w[0] if w else None
            nxt.append(("P",) + w)
            if inner != "F": nxt.append(("A",) + w)
            if inner not in ("F", "A"): nxt.append(("F",) + w)
        out += nxt
        level = nxt
    return out


def realize(w, k=0):
    ns = [2, 3, 5, 4]
    fs = ["F", "G", "H"]
    out, a, f = [], k, k
    for x in w:
        if x == "A": out.append(ns[a % 4]); a += 1
        elif x == "F": out.append(fs[f % 3]); f += 1
        else: out.append(x)
    return out


class Builder:
    """global definitions for one case"""
    def __init__(self): self.text, self.n = [], 0

    def const(self, t):
        self.n += 1
        return BASES[t.base][2](self.n)

    def init(self, t):
        """an initializer for an object of type t"""
        if t.isarr: return "{" + ", ".join(self.init(t.sub()) for _ in range(t.head)) + "}"
        if t.isptr:
            o = self.obj(t.sub())
            return o if t.sub().isfun else "&" + o
        return self.const(t)

    def obj(self, t, name=None, decl=None):
        if t.isfun:
            r = t.sub()
            name = name or self.new()
            if r.steps or r.base != "s": v = self.init(r)
            else: v = self.obj(r)
            d, params = name, ARGS[t.head][0]
            named = {"void": "void", "int, char *": "int a, char *b", "double, ...": "double a, ..."}[params]
            text = (t.bq + BASES[t.base][0] + " " + t.sub().declarator(f"{name}({named})")) if not (r.isptr) else t.bq + BASES[t.base][0] + " " + T(t.base, r.steps).declarator(f"{name}({named})")
            self.text.append(f"{text} {{ e15 += 1; return {v}; }}")
            return name
        i = self.init(t)
        name = name or self.new()
        self.text.append(f"{decl or t.decl(name)} = {i};")
        return name

    def new(self):
        self.n += 1
        return f"g{self.n}_@"


def use(t, e, lv=True, out=None, alt=0):
    """statements that observe e of type t, and everything reachable"""
    if out is None: out = []
    if not t.isfun:
        out.append(f"emit(sizeof({e}));")
        if lv: out.append(f"emit((char *) (&{e} + 1) - (char *) &{e});")
    if t.isptr:
        s = t.sub()
        if s.isfun:
            out.append(f"emit({e} != 0);")
            a = ARGS[s.head][1]
            use(s.sub(), f"(*{e})({a})" if alt else f"{e}({a})", False, out, alt)
        else:
            out.append(f"emit((char *) ({e} + 1) - (char *) {e});")
            use(s, f"{e}[0]" if alt else f"(*{e})", True, out, alt)
    elif t.isarr:
        out.append(f"emit(sizeof({e}) / sizeof({e}[0]));")
        use(t.sub(), f"(*({e} + {t.head - 1}))" if alt else f"{e}[{t.head - 1}]", True, out, alt)
    elif t.isfun: use(t.sub(), f"{e}({ARGS[t.head][1]})", False, out, alt)
    elif t.base == "s" and not lv: out.append(f"emit({e}.b);")
    else: out.append(BASES[t.base][1] % e)
    return out


def types():
    d = 5 if THOROUGH else 4
    for base in BASES:
        for w in words(d):
            if len(w) > 3 and base not in "cs" and not THOROUGH: continue
            for k in range(2 if len(w) <= 3 else 1):
                st = realize(w, k)
                if k and st == realize(w, 0): continue
                yield T(base, st)
    # qualifiers at every level, base included
    for w in words(3):
        n = w.count("P")
        if not n: continue
        for quals in itertools.product(("", "c", "v", "cv"), repeat=n):
            for bq in ("", "const ", "volatile "):
                if not any(quals) and not bq: continue
                it = iter(quals)
                yield T("c" if n % 2 else "i", ["P" + next(it) if x == "P" else x for x in realize(w, n)], bq)


def cases():
    seen = set()
    for t in types():
        nm = t.name()
        if nm in seen: continue
        seen.add(nm)
        # file scope, with an extern redeclaration and a pointer that gets its address
        b = Builder()
        o = b.obj(t, "x@")
        b.text.insert(0, "extern " + t.decl("x@") + ";" if not t.isfun else t.decl("x@") + ";")
        ptr = T(t.base, ("P",) + t.steps, t.bq)
        body = "\n".join(use(t, "x@")) + f"\n{ptr.decl('q')} = &x@; {ptr.decl('q2')}; q2 = q; emit(q == &x@); emit(q2 == q); " + ("" if t.isfun else "emit(sizeof(*q));") + " emit(e15);"
        yield Case("glob:" + nm, body, "\n".join(b.text))
        # redundant parentheses
        if t.steps and not t.isfun:
            b = Builder()
            o = b.obj(t, "x@", t.decl("x@", redundant=True))
            yield Case("paren:" + nm, "\n".join(use(t, "x@", alt=1)), "\n".join(b.text))
        # type names: sizeof and casts
        b = Builder()
        o = b.obj(t, "x@")
        l = []
        if not t.isfun: l.append(f"emit(sizeof({t.decl('')}));")
        l += use(t, f"(*({ptr.decl('')}) v)", True)
        yield Case("cast:" + nm, f"void *v; v = (void *) {'x@' if t.isfun else '&x@'};\n" + "\n".join(l), "\n".join(b.text))
        # a parameter (arrays and functions adjust to pointers)
        b = Builder()
        o = b.obj(t, "x@")
        pt = T(t.base, ("P",) + (t.steps[1:] if t.isarr else t.steps), t.bq) if (t.isarr or t.isfun) else t
        b.text.append(f"void h@({t.decl('p')}) {{\n" + "\n".join(use(pt, "p")) + "\n}")
        b.text.insert(0, f"void h@({t.decl('')});")
        yield Case("param:" + nm, "h@(x@); emit(e15);", "\n".join(b.text))
        # typedef split at every level
        for k in range(len(t.steps) + 1):
            b = Builder()
            o = b.obj(t, "x@")
            inner = t.sub(k)
            tdd = "typedef " + inner.decl("td@") + ";"
            b.text.insert(0, tdd)
            outer = t.declarator("%s", t.steps[:k])
            if not t.isfun: b.text.insert(1, f"extern td@ {outer % 'x@'};")
            pd = t.declarator("*%s" if True else "", t.steps[:k])
            l = [f"td@ {t.declarator('%s', ('P',) + t.steps[:k]) % 'q'} = &x@; emit(q == &x@);"]
            l += use(t, "(*q)")
            if not t.isfun: l.append(f"emit(sizeof(td@ {t.declarator('', t.steps[:k])}));")
            yield Case(f"td{k}:" + nm, "\n".join(l), "\n".join(b.text))
        # member, automatic object, typedef in a block
        if not t.isfun:
            b = Builder()
            o = b.obj(t, "x@")
            b.text.append(f"struct M@ {{ char z; {t.decl('m')}; char e; }};")
            if t.bq == "const " and not t.isptr or (t.isptr and "c" in str(t.head)) or "const" in t.bq: pass
            else:
                if t.isarr:
                    cp = "for (i = 0; i < (int) sizeof(x@); i++) ((char *) &v.m)[i] = ((char *) &x@)[i];"
                    cl = "for (i = 0; i < (int) sizeof(x@); i++) ((char *) &l)[i] = ((char *) &x@)[i];"
                else: cp, cl = "v.m = x@;", "l = x@;"
                yield Case("auto:" + nm, f"struct M@ v; {t.decl('l')}; int i; {cp} {cl} emit(sizeof(v)); emit((char *) &v.m - (char *) &v); emit((char *) &v.e - (char *) &v);\n" +
                           "\n".join(use(t, "v.m") + use(t, "l", alt=1)), "\n".join(b.text))
            yield Case("static:" + nm, f"typedef {t.decl('lt')}; static lt l; lt *q = &l; extern {t.decl('x@')}; q = &x@;\n emit(sizeof(lt)); emit(sizeof l);" + "\n".join(use(t, "(*q)")), "\n".join(b.text))


SPEC = [["char"], ["signed", "char"], ["unsigned", "char"], ["short"], ["short", "int"], ["signed", "short"], ["signed", "short", "int"],
        ["unsigned", "short"], ["unsigned", "short", "int"], ["int"], ["signed"], ["signed", "int"], ["unsigned"], ["unsigned", "int"], ["long"],
        ["long", "int"], ["signed", "long"], ["signed", "long", "int"], ["unsigned", "long"], ["unsigned", "long", "int"], ["long", "long"],
        ["long", "long", "int"], ["signed", "long", "long"], ["unsigned", "long", "long"], ["unsigned", "long", "long", "int"], ["float"], ["double"],
        ["long", "double"], ["struct S15"], ["enum E15"], ["td15"]]
SPRO = "enum E15 { A15, B15 = 5 }; typedef unsigned short td15;\n"


def specs():
    for s in SPEC:
        for extra in ([], ["const"], ["volatile"], ["const", "volatile"], ["static"], ["static", "const"], ["extern"], ["extern", "volatile"], ["typedef"], ["typedef", "const"], ["register"], ["auto"], ["register", "const"]):
            sto = [x for x in extra if x in ("static", "extern", "typedef", "register", "auto")]
            for perm in sorted(set(itertools.permutations(s + extra))):
                if len(perm) > 5 and not THOROUGH: continue
                sp = " ".join(perm)
                key = "spec:" + "_".join(perm).replace(" ", "")
                struct = s == ["struct S15"]
                fl = "float" in s or "double" in s
                en = s == ["enum E15"]
                obs = lambda v: f"emit(sizeof({v}));" + (f"emit({v}.b);" if struct else f"emit({v} < 0); emitd((double) {v}); " + ("" if fl else f"emitu((unsigned long) ({v} >> 1));"))
                val = "{1, 2, 3}" if struct else ("-1.25" if fl else "5" if en else "-1")
                if sto in ([], ["static"]):
                    yield Case("f" + key, obs("x@"), f"{sp} x@ = {val};")
                    yield Case("b" + key, f"{sp} x = {val}; " + obs("x"), "")
                elif sto == ["extern"]: yield Case("f" + key, obs("x@"), f"{sp} x@; {' '.join(p for p in perm if p != 'extern')} x@ = {val};")
                elif sto == ["typedef"]:
                    yield Case("f" + key, f"y@ x = {val}; " + obs("x"), f"{sp} y@;")
                    yield Case("b" + key, f"{sp} t; t x = {val}; " + obs("x"), "")
                else: yield Case("b" + key, f"{sp} x = {val}; " + obs("x"), "")
            if not extra or extra == ["const"]:
                for perm in sorted(set(itertools.permutations(s + extra))):
                    sp = " ".join(perm)
                    key = "spec:" + "_".join(perm).replace(" ", "")
                    val = "s15" if struct else ("-1.25" if fl else "5" if en else "-1")
                    yield Case("p" + key, f"h@({val}); emit(sizeof({sp})); emit(sizeof({sp} *)); " + ("" if struct else f"emitd((double) ({sp}) 2.75); emit(({sp}) -2 < {'-9' if en else '0'});"),
                               f"struct S15 s15 ; struct M@ {{ char c; {sp} m; {sp} *p; }}; void h@({sp} x) {{ {obs('x')} emit(sizeof(struct M@)); }} {sp} f@(void);")


def several():
    """every order of several declarators in one declaration"""
    D = [("a%", "a% = 3;", "emit(sizeof a%); emit(a%);"), ("*b%", "b% = &z15;", "emit(sizeof b%); emit(*b%);"), ("c%[2]", "c%[1] = 9;", "emit(sizeof c%); emit(c%[1]);"),
         ("(*d%)(void)", "d% = f15;", "emit(sizeof d%); emit(d%());"), ("f15(void)", "", "emit(f15());"), ("**e%", "e% = &b15;", "emit(sizeof e%); emit(**e%);"), ("(*g%)[3]", "g% = &a15;", "emit(sizeof *g%); emit((*g%)[1]);"), ("h% = 7", "", "emit(h%);")]
    for n in (1, 2, 3, 4):
        for perm in itertools.permutations(D, n):
            dd = ", ".join(x[0] for x in perm)
            key = "multi:" + dd.replace("%", "").replace(" ", "").replace("*", "+")
            st = " ".join(x[1] for x in perm) + " " + " ".join(x[2] for x in perm)
            yield Case(key, f"int {dd};".replace("%", "") + " " + st.replace("%", ""), "")
            if n < 4: yield Case("g" + key, st.replace("%", "m@"), f"int {dd};".replace("%", "m@"))
            if n < 3 and "f15" not in dd and "=" not in dd:
                yield Case("m" + key, "struct { char q; int " + dd.replace("%", "") + "; } s; " + st.replace("a%", "s.a").replace("b%", "s.b").replace("c%", "s.c").replace("d%", "s.d").replace("e%", "s.e").replace("g%", "s.g") + " emit(sizeof s);", "")
    for spec in ("struct { int a; char b; }", "enum { EA@, EB@ }", "struct Z@ { struct Z@ *n; char b; }", "union { long l; char c; }"):
        for perm in itertools.permutations(["x", "*y", "z[2]", "ff@(void)", "(*w)(void)"], 3):
            yield Case("tagmulti:" + spec.split()[0] + ":" + ",".join(perm).replace("*", "+"), f"{spec} {', '.join(perm)}; " + " ".join(f"emit(sizeof({p.strip('()*').split('[')[0].split('(')[0].split(')')[0]}));" for p in perm if "ff@" not in p), "")


def main():
    rep = Report("C15", LEVEL, "distinct hashes of what a case observed", ["Reference: gcc 13 and clang 18, -std=gnu89, which must agree before wcc is judged."])
    eng = Engine(rep, PRO, nowarn=True)
    eng.go(cases(), batch=60)
    eng = Engine(rep, PRO + SPRO + "struct S15 s15;", nowarn=True)
    eng.go(specs(), batch=150)
    eng = Engine(rep, PRO + "int z15 = 5; int *b15 = &z15; int a15[3] = {1,2,3}; int f15(void) { return 77; }\n", nowarn=True)
    eng.go(several(), batch=150)
    return rep.finish()
