"""C16: every arrangement of declarations of one name, in several roles, over nested scopes: what each use denotes, which object each write
reaches, what persists across calls; compared with gcc and clang."""
import itertools
from ..core import Report, THOROUGH
from ..diff import Case, Engine

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of scope arrangements (role of one identifier or tag at file, parameter, body and nested block level), of ambiguous uses of typedef names and of recursion shapes; run on the real compiler, observations compared with gcc and clang"
NOTE = "One name in up to six ordinary roles and three tag roles on four scope levels, with uses before, inside and after every scope; each function is called three times to see statics persist. C89 scopes (no for-declarations)."

ORD = ["N", "V", "S", "E", "T", "C", "F"]


def ordinary():
    for file in ("N", "V", "S", "T", "C", "F"):
        for l1 in ("P",) + tuple(ORD):
            for l2 in ORD:
                for l3 in ORD:
                    lv = [file, l1, l2, l3]
                    # block scope declarations with linkage must fit the file scope one
                    if "E" in lv[1:] and file not in "NV": continue
                    if "F" in lv[1:] and file not in "NF": continue
                    if "E" in lv[1:] and "F" in lv: continue
                    if "E" in lv[1:] and file == "N" and "F" in lv[1:]: continue
                    # an extern declaration hidden by an object without linkage still denotes the file scope object
                    yield Case("ord:" + "".join(lv), *ord_case(lv))


K = {0: 3, 1: 5, 2: 7, 3: 9}


def ord_decl(role, lvl, file=False):
    return {"N": "", "P": "", "V": f"int x@ = {10 + lvl};", "S": f"static int x@ = {20 + lvl};", "E": "extern int x@;", "T": f"typedef char x@[{K[lvl]}];",
            "C": f"enum {{ x@ = {40 + lvl} }};", "F": "int x@(void);"}[role]


def use(role, lvl, tag):
    if role == "N": return f"emit({tag});"
    if role in "VSEP": return f"emit({tag}); emit(x@); emit(sizeof(x@)); x@ += {lvl + 1}; emit(x@);"
    if role == "T": return f"emit({tag}); emit(sizeof(x@)); {{ x@ y; y[0] = 1; emit(sizeof y); }}"
    if role == "C": return f"emit({tag}); emit(x@); emit(x@ + 1);"
    return f"emit({tag}); emit(x@());"


def ord_case(lv):
    def cur(n):
        for i in range(n, -1, -1):
            if lv[i] != "N": return lv[i], i
        return "N", 0

    decls, body = [], []
    fd = ord_decl(lv[0], 0)
    if lv[0] == "F": fd = "int x@(void) { return 50; }"
    if fd: decls.append(fd)
    par = "int x@" if lv[1] == "P" else "int q"
    n = 0

    def u(l):
        nonlocal n
        n += 1
        r, i = cur(l)
        return use(r, i, n)

    b = []
    b.append(ord_decl(lv[1], 1))
    b.append(u(1))
    b.append("{ int z; z = 1; " + (u(1) if lv[2] not in "SVETCF" else "") + "}")
    b.append("if (k > 0) {")
    if lv[2] in "VSTC" and cur(1)[0] in "VSEPC": b.append(f"int w = x@; enum {{ w2 = sizeof(x@) }};")   # still the outer one
    b.append(ord_decl(lv[2], 2))
    b.append(u(2))
    b.append("while (k-- > 0) {")
    b.append(ord_decl(lv[3], 3))
    b.append(u(3))
    b.append("}")
    b.append(u(2))
    if lv[2] in "VSTC" and cur(1)[0] in "VSEPC": b.append("emit(w); emit(w2);")
    b.append("}")
    b.append(u(1))
    decls.append(f"void f@({par}, int k) {{\n" + "\n".join(x for x in b if x) + "\n}")
    later = ""
    if lv[0] == "N" and "E" in lv: later = "int x@ = 77;"
    if lv[0] == "N" and "F" in lv: later = "int x@(void) { return 88; }"
    if later: decls.append(later)
    r0 = lv[0] if lv[0] != "N" else ("E" if "E" in lv else "F" if "F" in lv else "N")
    return ("f@(60, 2); f@(70, 1); f@(80, 0); f@(90, 1); " + use(r0, 0, 99), "\n".join(decls))


TAGS = ["N", "s", "u", "e", "i"]


def tag_decl(role, lvl):
    n = K[lvl]
    return {"N": "", "s": f"struct x@ {{ char m[{n}]; }};", "u": f"union x@ {{ char m[{n}]; short s; }};", "e": f"enum x@ {{ en{lvl}_@ = {n} }};",
            "i": f"struct x@; {{ struct x@ *p; p = 0; emit(p == 0); }} struct x@ {{ char m[{n + 10}]; struct x@ *n; }};",
            "j": f"struct {{ char c; struct x@ {{ char m[{n + 20}]; }} in; }} h{lvl};"}[role]


def tag_use(role, lvl, tag, kw):
    if role == "N": return f"emit({tag});"
    k = {"s": "struct", "u": "union", "e": "enum", "i": "struct", "j": "struct"}[role]
    return f"emit({tag}); emit(sizeof({k} x@)); {{ {k} x@ o, *q; q = &o; emit(sizeof(*q)); emit((char *) (q + 1) - (char *) q); }}" + (f" emit(en{lvl}_@);" if role == "e" else "")


def tags():
    for lv in itertools.product(TAGS, TAGS + ["j"], TAGS + ["j"], TAGS + ["j"]):
        if lv[0] == "i": continue   # written with a block
        n = 0

        def u(l):
            nonlocal n
            n += 1
            for i in range(l, -1, -1):
                if lv[i] != "N": return tag_use(lv[i], i, n, 0)
            return f"emit({n});"
        body = [tag_decl(lv[1], 1), u(1), "{", u(1), tag_decl(lv[2], 2) if lv[2] != "i" else "", "" if lv[2] == "i" else u(2),
                "do {", tag_decl(lv[3], 3), u(3), "} while (0);", "", u(2) if lv[2] != "i" else u(1), "}", u(1)]
        if lv[2] == "i": body[4:6] = [tag_decl("i", 2), u(2)]; body[11] = u(2)
        # declarations after statements are not C89, but both compilers under test take them
        yield Case("tag:" + "".join(lv), "\n".join(x for x in body if x), tag_decl(lv[0], 0))


def spaces():
    """ordinary names, tags, members and labels do not see each other"""
    for fo, ft, bo, bt in itertools.product("VTCF", "sue", "NVSTC", "Nsue"):
        lvo, lvt = [fo, bo], [ft, bt]
        ro, lo = (bo, 1) if bo != "N" else (fo, 0)
        rt, lt = (bt, 1) if bt != "N" else (ft, 0)
        d = (ord_decl(fo, 0) if fo != "F" else "int x@(void) { return 50; }") + "\n" + tag_decl(ft, 0) + "\nstruct mm@ { char x@; struct { int x@; } y; };"
        b = f"int g = 0; {ord_decl(bo, 1)} {tag_decl(bt, 1)} struct mm@ v, *p = &v; v.x@ = 3; p->y.x@ = 4; {use(ro, lo, 1)} {tag_use(rt, lt, 2, 0)}\n" \
            f"x@: g++; emit(v.x@); emit(p->y.x@); if (g < 3) goto x@; emit(sizeof(v.x@)); {{ {'int x@ = 5; emit(x@);' if ro != 'T' else 'int x@ = 6; emit(x@ * 2);'} if (g++ < 6) goto x@; }} emit(g);"
        yield Case(f"space:{fo}{ft}{bo}{bt}", b, d)


TFRAG = ["x@ y = 3; emit(y);", "x@ *y; x@ z = 4; y = &z; emit(*y);", "x@ (y); y = 5; emit(y);", "x@ y[2]; y[1] = 7; emit(y[1]); emit(sizeof y);", "x@ (*y)(x@); y = idl@; emit(y(9));",
         "emit(sizeof(x@)); emit(sizeof(x@ *)); emit(sizeof(x@[3]));", "emit((x@) 300); emit((x@) (3)); emit((x@) -1); emit((x@) +1); emit((x@) ~1); emit((x@) !1);", "int v = 2; emit((x@) & v != 0); emit(((x@) v) * 3);",
         "emit((x@ *) 0 == 0);", "const x@ y = 3; emit(y);", "x@ const y = 3; emit(y);", "static x@ y = 3; emit(y++);", "register x@ y = 3; emit(y);", "struct { x@ x@; } s; s.x@ = 4; emit(s.x@); emit(sizeof s);",
         "struct { x@ a; int x@; } s, *p = &s; p->x@ = 4; emit(s.x@);", "int y = 0; x@: y++; if (y < 3) goto x@; emit(y);", "enum { a = sizeof(x@) }; emit(a);", "x@ x@ = 5; emit(x@); x@++; emit(x@);", "int x@ = 5; emit(x@ * 2); { int y = x@; emit(y); }",
         "{ int x@ = 1; emit(x@); } { x@ y = 2; emit(y); }", "struct x@ { char q[5]; }; emit(sizeof(struct x@)); emit(sizeof(x@));", "enum x@ { b = 3 }; x@ y = b; emit(y);", "typedef x@ x2; x2 y = 4; emit(y); emit(sizeof(x2));",
         "typedef x@ *x2; x@ z = 3; x2 y = &z; emit(*y);", "typedef char x@; emit(sizeof(x@));", "x@ f(x@), y = 3; emit(y);", "unsigned x@ = 4; emit(x@);", "emit(tf@(3));", "emit(sizeof(struct { x@ a, b; }));", "x@ y = (x@) 2, z = (x@) sizeof(x@); emit(y); emit(z);",
         "for (;;) { x@ y = 1; emit(y); break; }", "if (1) { x@ y = 1; emit(y); } else { x@ *y = 0; emit(y == 0); }", "switch (1) { case 1: { x@ y = 5; emit(y); } }", "int x2 = sizeof(x@) * 2; emit(x2);", "union { x@ x@; char c; } u; u.x@ = 3; emit(u.c);",
         "x@ y = 2, *x@ = &y; emit(*x@);", "x@ a@ = 1; { x@ x@ = a@ + 1; emit(x@); { int a@ = x@; emit(a@); } } emit(a@);", "extern x@ ex@; emit(ex@);", "x@ *const y = 0; emit(y == 0);", "emit(sizeof(x@ (*)(x@, int)));", "emit(((x@ (*)(x@)) idl@)(6));"]
VFRAG = ["int y = 3; emit(x@ * y);", "int y = 3; x@ * y; emit(y);", "emit((x@) - 1); emit((x@) + 1); emit((x@) & 3); emit((x@) * 2);", "emit(sizeof(x@)); emit(sizeof x@); emit(sizeof(x@) * 2);", "emit(x@ ? x@ : 0);", "emit((x@, 3)); emit((1, x@));", "emit(-x@); emit(~x@); emit(!x@);",
         "int y = x@; emit(y);", "int y; y = (x@); emit(y); emit(((x@)));", "x@ = 4; emit(x@); x@++; emit(x@); (x@)--; emit(x@);", "long *p = &x@; *p = 3; emit(x@); emit(*&x@);", "x@; (x@); emit(1);", "if (x@) emit(1); while (x@ > 100) x@--; for (x@ = 0; x@ < 3; x@++) emit(x@);",
         "switch (x@) { case 5: emit(5); break; default: emit(0); }", "int a[9]; a[x@ & 7] = 3; emit(a[x@ & 7]);", "emit(tf@(x@));", "return (void) x@;", "int y = 0; x@: y++; if (y < 3) goto x@; emit(x@);", "struct x@ { int x@; } s; s.x@ = x@; emit(s.x@);", "typedef int x@; x@ y = 3; emit(y);",
         "{ typedef short x@; x@ y = 3; emit(sizeof(x@)); emit(y); } emit(sizeof(x@));", "int x2 = x@ + 1, y = x2 + x@; emit(y);"]


def ambiguous():
    aux = "long idl@(long a) { return a + 1; }"
    for i, f in enumerate(TFRAG):
        for pos, d, b in (("file", "typedef long x@;", "%s"), ("hide", "long x@ = 5;", "typedef long x@; %s"), ("block", "", "typedef long x@; { %s }"), ("hide2", "enum { x@ = 4 };", "{ typedef long x@; { %s } } emit(x@);"), ("after", "", "{ long x@ = 3; emit(x@); } { typedef long x@; %s }"), ("param", "typedef long x@;", "{ typedef long x@; %s }")):
            if "tf@" in f and pos != "file" or "ex@" in f and pos != "file": continue
            if pos != "file" and pos != "param" and pos != "hide2" and pos != "hide" and "typedef char x@" in f: continue
            if pos in ("hide", "block", "after", "hide2", "param"): b = b.replace("%s", "{ %s }")
            # members of one block may not redeclare: always in a block of its own
            dd = d + "\n" + (aux if pos in ("file", "param") else aux) + "\n" + ("x@ tf@(x@ x@) { return x@ + 1; }\nlong ex@ = 12;" if pos == "file" else "")
            yield Case(f"type{i}:{pos}", ("{ " + f + " }") if pos == "file" else b.replace("%s", f), dd)
    for i, f in enumerate(VFRAG):
        for pos, d, b in (("file", "long x@ = 5;", "{ %s }"), ("hide", "typedef char x@;", "long x@ = 5; { %s }"), ("param", "typedef char x@[3];", "h@(5);"), ("static", "typedef char x@;", "{ static long x@ = 5; { %s } } emit(sizeof(x@));"), ("after", "long x@ = 5;", "{ typedef char x@; emit(sizeof(x@)); } { %s }")):
            if pos == "static" and "return" in f: continue
            d += "\nlong tf@(long a) { return a + 1; }"
            if pos == "param": d += f"\nvoid h@(long x@) {{ {{ {f} }} }}"
            yield Case(f"var{i}:{pos}", b.replace("%s", f), d)


RT = [("char", "emit"), ("short", "emit"), ("int", "emit"), ("unsigned long", "emitu"), ("float", "emitd"), ("double", "emitd"), ("long double", "emitld")]


def lifetimes():
    for (t, em), where, shape in itertools.product(RT, ("body", "block", "loop", "param", "array", "struct", "static", "blockstatic"), ("first", "last", "mid", "twice", "mutual", "addr")):
        decl = {"body": f"{t} v = n * 3; {t} *a = &v;", "block": f"{t} v = n * 3; {t} *a = &v;", "loop": f"{t} v = n * 3; {t} *a = &v;", "param": f"{t} *a = &v;", "array": f"{t} w[3]; {t} *a = w + 1; ",
                "struct": f"struct {{ char c; {t} v; }} s; {t} *a = &s.v;", "static": f"static {t} v = 1; {t} *a = &v;", "blockstatic": f"static {t} v = 2; {t} *a = &v;"}[where]
        init = "*a = n * 3;" if where in ("array", "struct") else "*a += n;" if "static" in where else ""
        callee = "g@" if shape == "mutual" else "f@"
        arg = f", ({t}) (n + 7), a" if where == "param" else ", a"
        call = f"if (n > 0) {callee}(n - 1{arg});"
        see = f"{em}(*a); emit(a == prev);"
        mod = "*a += 1;"
        st = {"first": f"{call} {see} {mod}", "last": f"{see} {mod} {call}", "mid": f"{see} {mod} {call} {see}", "twice": f"{see} {call} {mod} {call} {see}", "mutual": f"{see} {call} {see}",
              "addr": f"{see} {call} if (prev) {em}(*prev); {mod} {see}"}[shape]
        params = f"int n{', ' + t + ' v' if where == 'param' else ''}, {t} *prev"
        inner = f"{decl} {init} {st}"
        if where in ("block", "blockstatic"): inner = f"int z = n; if (n >= 0) {{ {inner} }} emit(z);"
        if where == "loop": inner = f"int i; for (i = 0; i < 2; i++) {{ {inner} }} emit(i);"
        g = f"void g@({params});" + f"void f@({params}) {{ {inner} }}\n" + (f"void g@({params}) {{ {inner.replace('g@', 'f@')} }}" if shape == "mutual" else "void g@(" + params + ") { }")
        first = "f@(2, 5, 0);" if where == "param" else "f@(2, 0);"
        yield Case(f"life:{t.replace(' ', '')}:{where}:{shape}", first + " " + first, g)


def statics():
    """the same name as a static in several functions and blocks; initialized once; skipped declarations keep their value"""
    forms = ["{ static int s = %d; emit(s); s += %d; }", "static int s%d = %d; emit(s%d);", "if (n & 1) { static int s = %d; s += %d; emit(s); } else { static char s[] = \"ab%d\"; s[1]++; emits(s); }",
             "switch (n) { static int s = 5; case 0: s += %d; emit(s); break; case 1: s *= 2; default: emit(s); }"]
    body = ["{ static int s = 3; emit(s); s += 2; }", "static long t = -4; emit(t); t *= 3;", "if (n & 1) { static int s = 7; s += 5; emit(s); } else { static char s[] = \"abc\"; s[1]++; emits(s); }",
            "switch (n) { case 0: { static int s = 1; emit(s); s++; } break; case 1: { static double s = 1.5; emitd(s); s *= 2; } }", "{ static struct { int a; char *p; } s = { 5, \"zz\" }; emit(s.a++); emits(s.p); }", "{ static int *s = &gs@; emit(*s); *s += 3; }",
            "{ static int s[3] = { 1, 2 }; emit(s[n & 1]); s[n & 1] += 10; }", "goto l%; { static int s = 9; l%: emit(s); s++; }", "{ static int s; emit(s); s = n + 1; }", "{ extern int gs@; emit(gs@); gs@ += 1; }", "{ static int (*s)(int) = ff@; emit(s(n)); }"]
    for k in (1, 2, 3):
        for sel in itertools.product(range(len(body)), repeat=k):
            if k == 3 and not THOROUGH and (sel[0] * 7 + sel[1] * 3 + sel[2]) % 5: continue
            if "t" in [("t" if x == 1 else "") for x in sel] and sel.count(1) > 1: continue
            txt = " ".join(body[x].replace("%", f"{j}") for j, x in enumerate(sel))
            d = "int gs@ = 100; int ff@(int a) { return a * 2; }\n" + f"int f@(int n) {{ {txt} return n; }} static int s = 55; int g@(int n) {{ {txt} return s; }}".replace("static int s = 55;", "static int sf@ = 55;").replace("return s;", "return sf@;")
            yield Case("stat:" + ",".join(map(str, sel)), "int i; for (i = 0; i < 4; i++) emit(f@(i)); for (i = 3; i >= 0; i--) emit(g@(i)); emit(f@(1)); emit(gs@);", d)


MISC = [("proto-scope", "emit(f@(3, 4));", "typedef int T@; int f@(int T@, int b); int x@ = 5; int g@(int x@, char y[sizeof(x@)]); int f@(int a, int b) { T@ r = a * b + x@; return r; }"),
        ("param-typedef-same", "emit(f@(3));", "typedef int T@; T@ f@(T@ T@) { return T@ + 1; }"),
        ("param-typedef-second", "emit(f@(3, 4));", "typedef int T@; int f@(T@ a, T@ T@) { return a * T@; }"),
        ("struct-fwd", "struct B@ b; struct A@ a; a.b = &b; b.a = &a; b.v = 3; emit(a.b->a->b->v);", "struct A@ { struct B@ *b; }; struct B@ { struct A@ *a; int v; };"),
        ("struct-fwd-inner", "struct B@ { char c[3]; }; { struct B@; struct A2 { struct B@ *b; }; struct B@ { char c[9]; }; struct A2 a; emit(sizeof(*a.b)); } emit(sizeof(struct B@));", "struct B@ { char c[7]; };"),
        ("struct-use-outer", "{ struct A2 { struct B@ *b; }; struct B@ { char c[9]; }; struct A2 a; emit(sizeof(*a.b)); emit(sizeof(struct B@)); }", "struct B@ { char c[7]; };"),
        ("enum-in-struct", "struct { enum { A@ = 3, B@ } e; int x[B@]; } s; emit(sizeof s); emit(A@); { enum { A@ = 9 }; emit(A@); } emit(A@);", ""),
        ("enum-shadow-self", "enum { A@ = A2@ + 1, A2@ = A@ * 2 }; emit(A@); emit(A2@);", "enum { A2@ = 10 };"),
        ("struct-in-params", "struct S@ s; s.a = 4; emit(f@(&s));", "struct S@ { int a; }; int f@(struct S@ *S@) { struct S@ l; l = *S@; return l.a + S@->a; }"),
        ("struct-in-sizeof", "emit(sizeof(struct Q@ { int a, b; })); struct Q@ q; q.a = 1; q.b = 2; emit(q.b);", ""),
        ("struct-in-cast", "void *p = \"\\1\\2\\3\\4\\5\\6\\7\\10\"; emit(((struct Q@ { int a, b; } *) p)->b); emit(sizeof(struct Q@));", ""),
        ("own-init", "int x@ = sizeof(x@) + 1; emit(x@); { char x@ = sizeof(x@); emit(x@); }", "long x@;"),
        ("own-init-ptr", "void *p = &p; emit(p == (void *) &p);", ""),
        ("declarator-order", "int x@ = 3, y = x@ + 1, z[2] = { 5, 6 }; emit(y); emit(z[1]); { int y = y_@(), x@ = y; emit(x@); }", "long x@ = 70; int y_@(void) { return x@; }"),
        ("extern-in-block", "int x@ = 3; { extern int x@; emit(x@); x@ = 8; } emit(x@); emit(get@());", "int x@ = 5; int get@(void) { return x@; }"),
        ("func-in-block", "int f@(int); emit(f@(2)); { int f@ = 9; emit(f@); { int f@(int); emit(f@(3)); } }", "int f@(int a) { return a + 100; }"),
        ("label-per-function", "emit(f@(0)); emit(g@(0));", "int f@(int i) { a: i++; if (i < 3) goto a; b: return i; } int g@(int i) { goto b; a: return i * 2; b: i += 7; goto a; }"),
        ("label-nested-fn-names", "int a@ = 1; { goto a@; a@ = 5; } a@: emit(a@);", ""),
        ("tag-typedef-anon", "typedef struct { int a; } T@; typedef struct T@ { char c[3]; } U@; emit(sizeof(T@)); emit(sizeof(struct T@)); emit(sizeof(U@)); { T@ T@; T@.a = 3; emit(T@.a); }", ""),
        ("typedef-redecl-outer", "T@ a = 3; { typedef char T@; T@ b = 3; emit(sizeof b); { typedef long T@; T@ c; emit(sizeof c); } { T@ d; emit(sizeof d); } } { T@ e; emit(sizeof e); } emit(a);", "typedef int T@;"),
        ("typedef-fn-local", "f@(); { T@ x; emit(sizeof x); }", "typedef int T@; void f@(void) { typedef char T@; T@ x; emit(sizeof x); }"),
        ("struct-scope-fn", "f@(); emit(sizeof(struct S@));", "struct S@ { int a, b; }; void f@(void) { struct S@ { char c; } x; emit(sizeof x); emit(sizeof(struct S@)); }"),
        ("enum-scope-fn", "f@(); emit(E@);", "enum { E@ = 3 }; void f@(void) { enum { E@ = 7 }; emit(E@); { int E@ = 11; emit(E@); } emit(E@); }"),
        ("case-enum-shadow", "switch (4) { enum { Z@ = 4 }; case Z@: emit(1); break; case 3: emit(2); }", "enum { Z@ = 3 };"),
        ("array-size-shadow", "int a[N@]; { enum { N@ = 5 }; int b[N@]; emit(sizeof b / sizeof *b); } emit(sizeof a / sizeof *a);", "enum { N@ = 3 };"),
        ("many-scopes", " ".join("{ int x@ = %d; emit(x@);" % i for i in range(40)) + " " + "x@ += 1; emit(x@); } " * 40, ""),
        ("many-siblings", " ".join("{ int x@ = %d, y; y = x@ * 2; emit(y); }" % i for i in range(60)), ""),
        ("goto-into-block", "int n = 0; goto in; { int x@ = 3; in: x@ = 4; emit(x@); } emit(n);", ""),
        ("loop-reinit", "int i; for (i = 0; i < 3; i++) { int x@ = 5; emit(x@); x@ += i; emit(x@); }", ""),
        ("goto-reinit", "int i = 0; again: { int x@ = 5; emit(x@); x@ = 9; if (i++ < 2) goto again; emit(x@); }", "")]


def misc():
    for k, b, d in MISC: yield Case("misc:" + k, b, d)


def main():
    rep = Report("C16", LEVEL, "distinct hashes of what a case observed", ["Reference: gcc 13 and clang 18, -std=gnu89, which must agree before wcc is judged."])
    eng = Engine(rep, nowarn=False)
    eng.go(itertools.chain(ordinary(), tags(), spaces(), ambiguous(), lifetimes(), statics(), misc()), batch=80)
    return rep.finish()
