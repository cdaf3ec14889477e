"""C12: every size, every kind of destination, every kind of source of a struct or union copy; the bytes of the destination, of its neighbours and
of the source are compared with gcc and clang."""
import itertools
from .. import core
from ..aggr import SC, scalar, struct, union, array, sort_defs
from ..core import Report
from ..diff import Case, Engine

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of sizes, destination kinds, source kinds and aliasing; every byte of source, destination and their neighbours compared with gcc and clang"
NOTE = "Sizes 1-72 and larger ones, element types char to long double, 12 destination kinds times 14 source kinds, all alias distances within an array, chains and uses of a copy's value. Members read from copies that are not lvalues are part of it."

# an object of type s@ in a box with neighbours: declarations, lvalue, the object whose bytes are compared. {b}: box, {g}: global box, {t}: static box, {p}: pointer, {a}: plain
BOX = "struct x@ { char a[5]; s@ o; char z[7]; s@ v[3]; char y; };"
OBJ = {
    "local": ("", "{b}.o", "{b}"), "localp": ("s@ *{p} = &{b}.o;", "(*{p})", "{b}"), "global": ("", "{g}.o", "{g}"), "static": ("", "{t}.o", "{t}"), "arr": ("", "{b}.v[1]", "{b}"), "arrv": ("", "{b}.v[i]", "{b}"), "garrv": ("", "{g}.v[i]", "{g}"),
    "arrow": ("struct x@ *{p} = &{b};", "{p}->o", "{b}"), "arrowv": ("struct x@ *{p} = &{g};", "{p}->v[i + 1]", "{g}"), "ptradd": ("s@ *{p} = {b}.v;", "*({p} + i)", "{b}"), "ptrinc": ("s@ *{p} = {b}.v;", "*{p}++", "{b}"), "heap": ("struct x@ *{p} = heap@();", "{p}->v[i]", "K@"), "plain": ("s@ {a};", "{a}", "{a}"),
}
SRC = dict(OBJ, call=("", "f@(&{b}.o)", "{b}"), callv=("", "fv@({b}.v[1], 3)", "{b}"), cond=("", "(i ? {b}.o : {b}.v[0])", "{b}"), comma=("", "(i++, {b}.v[1])", "{b}"), assign=("", "({b}.v[0] = {b}.v[2])", "{b}"))
ROLE = [dict(b="L", g="G@", t="T", p="P", a="A"), dict(b="M", g="G@", t="U", p="R", a="B")]


def types():
    c = lambda k, n: struct(array(scalar(k), n))
    for n in list(range(1, 73)) + [79, 80, 81, 95, 96, 100, 127, 128, 129, 255, 256, 257, 1000]: yield f"c{n}", f"typedef struct {{ char c[{n}]; }} s@;"
    for k, ns in (("short", (1, 2, 3, 5, 15, 17, 33)), ("int", (1, 2, 3, 5, 7, 8, 9, 17)), ("long", (1, 2, 3, 4, 5, 9)), ("float", (1, 3, 5)), ("double", (1, 2, 3, 4, 5)), ("long double", (2, 3)), ("char *", (1, 2, 3, 5))):
        for n in ns: yield f"{k.replace(' ', '')}{n}", f"typedef struct {{ {k} m[{n}]; }} s@;"
    for t, b in (("mix1", "char a; short b; int c; long d;"), ("mix2", "int a; char b[3]; double d; char e;"), ("mix3", "long a[3]; char b;"), ("mix4", "char a; long double b; char c;"), ("mix5", "struct { char p; int q; } a[3]; short z;"), ("mix6", "struct { struct { char x[3]; } y; } a; char *p; float f[2];"), ("bf", "int a : 3; unsigned b : 29; char c; unsigned d : 7;"), ("fn", "int (*f)(int); char c[9];"), ("one", "char c;")):
        yield t, f"typedef struct {{ {b} }} s@;"
    for t, b in (("u1", "char c; int i;"), ("u2", "char c[13]; long l;"), ("u3", "struct { int a, b, c; } s; double d;"), ("u4", "long double x; char c[33];"), ("u5", "char c[3]; short s;")):
        yield t, f"typedef union {{ {b} }} s@;"


SETUP = "struct x@ L, M; static struct x@ T, U; int i = 1, n; %s for (n = 0; n < sizeof(L); n++) { ((char *) &L)[n] = n + 1; ((char *) &M)[n] = n * 3 + 50; ((char *) &G@)[n] = n * 7 + 3; ((char *) &T)[n] = n * 11 + 1; ((char *) &U)[n] = n * 5 + 9; } "


def dump(e): return f"emitb(&{e}, sizeof({e}));"


PADDED = {"mix1", "mix2", "mix3", "mix4", "mix5", "mix6", "bf", "fn", "u1", "u2", "u3", "u4", "u5", "longdouble1", "longdouble2", "longdouble3"}


def cases():
    big = [t for t in types()]
    some = [t for t in big if t[0] in ("c1", "c2", "c3", "c5", "c7", "c8", "c9", "c12", "c15", "c16", "c17", "c24", "c31", "c32", "c33", "c40", "c64", "c100", "int3", "long2", "long3", "longdouble1", "double2", "double5", "float3", "mix2", "mix4", "u2", "u4", "bf")] if not core.THOROUGH else big
    for (tn, td), dk, sk in itertools.product(big, OBJ, SRC):
        if (tn, td) not in some and not (dk in ("local", "localp", "arrv", "global") and sk in ("local", "localp", "global", "call", "arrv")): continue
        ds, dl, di = [x.format(**ROLE[0]) for x in OBJ[dk]]
        ss, sl, si = [x.format(**ROLE[1]) for x in SRC[sk]]
        fill = "".join(f"for (n = 0; n < sizeof({x}); n++) ((char *) &{x})[n] = n + {k}; " for x, k, on in (("A", 33, dk == "plain"), ("B", 77, sk == "plain")) if on)
        if tn in PADDED and sk in ("call", "callv", "cond", "assign", "comma"): continue      # padding may legally differ; members are compared below
        decl = td + f" {BOX} static struct x@ G@, K@[2]; static struct x@ *heap@() {{ int n; for (n = 0; n < sizeof(K@); n++) ((char *) K@)[n] = n * 13; return &K@[1]; }} static s@ f@(s@ *p) {{ s@ r; r = *p; return r; }} static s@ fv@(s@ p, int k) {{ int n; for (n = 0; n < sizeof(p); n++) ((char *) &p)[n] ^= k; return p; }} "
        b = SETUP % (ds + " " + ss) + fill
        if sk == "heap": b += "R--; "
        b += f"{dl} = {sl}; " + "".join(dump(x) for x in dict.fromkeys([di, si])) + " emit(i);"
        if dk == "ptrinc": b += " emit((char *) P - (char *) &L);"
        yield Case(f"copy:{tn}:{dk}:{sk}", b, decl)
    # members of values, of chains, of calls; comparing members only
    S = [struct(scalar(k)) for k in "cildfDp"] + [struct(scalar(a), scalar(b)) for a, b in itertools.product("cildfD", repeat=2)] + [struct(scalar(a), array(scalar(b), n)) for a, b in itertools.product("cid", "chf") for n in (2, 3, 5)] + [struct(scalar("l"), scalar("l"), scalar("c"), scalar("d")), struct(array(scalar("c"), 3), scalar("D")), union(scalar("i"), array(scalar("c"), 7)), struct(struct(scalar("c"), scalar("i")), union(scalar("f"), scalar("d")), array(scalar("h"), 3))]
    for t in S:
        ty, e = t.pre, t.emit
        m, k, _ = t.leaves[-1] if "[" not in t.leaves[-1][0] else t.leaves[0]
        em = SC[k][1]
        pm = lambda x: f"{em}({'(long) ' if k == 'p' else ''}{x}{m});"
        ok = "[" not in m
        decl = f"static {t.decl('g@')}; static {t.decl('mk@')[:-len(t.post) or None]}(int n) {{ {t.decl('r')}; {t.fill('r', 3)} if (n) {{ {t.fill('r', 4)} }} return r; }} static {ty} id@({t.decl('x')}) {{ {t.decl('y')} = x; {t.fill('x', 66)} return y; }} "
        pre = f"{t.decl('a')}, b, c, v[3], *p = &b; int i = 1; {t.fill('a', 1)} {t.fill('b', 2)} {t.fill('c', 5)} {t.fill('v[0]', 6)} {t.fill('v[1]', 7)} {t.fill('v[2]', 8)} "
        def mk(n, body): return Case(f"val:{t.name}:{n}", pre + body, decl)
        yield mk("chain", f"a = b = c; {e('a')} {e('b')} {e('c')} v[0] = v[1] = *p = mk@(1); {e('v[0]')} {e('v[1]')} {e('b')}")
        yield mk("self", f"a = a; {e('a')} *p = b; {e('b')} v[i] = v[1]; {e('v[1]')}")
        yield mk("swap", f"{{ {t.decl('t')} = a; a = b; b = t; }} {e('a')} {e('b')} t@x: v[0] = v[2]; {e('v[0]')} {e('v[1]')}")
        yield mk("cond", f"c = i ? a : b; {e('c')} c = !i ? a : *p; {e('c')} c = i ? mk@(0) : id@(a); {e('c')} c = (i ? v : &a)[1]; {e('c')}")
        yield mk("condv", f"int j; for (j = 0; j < 3; j++) {{ c = j == 0 ? a : j == 1 ? b : v[2]; {e('c')} }}")
        yield mk("comma", f"c = (i++, b); {e('c')} c = (a = b, v[2]); {e('c')} {e('a')} emit(i);")
        yield mk("init", f"{t.decl('x')} = a, y = *p, z = mk@(1), w = v[i + 1], u = i ? a : b; {e('x')} {e('y')} {e('z')} {e('w')} {e('u')} {{ {t.decl('x')} = y; {e('x')} }}")
        yield mk("initagg", f"struct {{ int q; {t.decl('s')}; {t.decl('r')}; int w; }} o = {{ 7, a, b, 9 }}; emit(o.q); {e('o.s')} {e('o.r')} emit(o.w); {{ {t.pre} x[3] = {{ b, mk@(1), a }}; {e('x[0]')} {e('x[1]')} {e('x[2]')} }}" if not t.post else "emit(1);")
        yield mk("callarg", f"c = id@(a); {e('c')} {e('a')} c = id@(id@(mk@(1))); {e('c')} c = id@(i ? a : b); {e('c')} c = id@((i++, *p)); {e('c')} c = id@(a = v[2]); {e('c')} {e('a')}")
        yield mk("global", f"g@ = a; {e('g@')} b = g@; {e('b')} g@ = id@(g@); {e('g@')} p = &g@; *p = v[1]; {e('g@')} v[0] = *p; {e('v[0]')}")
        yield mk("ptr", f"{t.pre} *q = v, *r = v + 2; *q++ = *r--; *q = a; {e('v[0]')} {e('v[1]')} {e('v[2]')} *r = *q = b; {e('v[1]')} *(p = &c) = a; {e('c')} emit(q - v); emit(r - v);")
        yield mk("index", f"int j; for (j = 0; j < 2; j++) v[j] = v[j + 1]; {e('v[0]')} {e('v[1]')} {e('v[2]')} v[i] = v[i - 1] = v[i + 1]; {e('v[1]')}")
        yield mk("nested", f"struct {{ char q; {t.decl('s')}; {t.pre} w[2]; char z; }} o, o2, *h = &o2; o.q = 1; o.z = 2; o.s = a; o.w[0] = b; o.w[i] = c; o2 = o; {e('o2.s')} {e('h->w[0]')} {e('h->w[i]')} emit(o2.q + o2.z); h->s = h->w[1]; {e('o2.s')} *h = o; {e('o2.s')} v[0] = h->w[i]; {e('v[0]')}")
        yield mk("union", f"union {{ {t.decl('s')}; char c[sizeof({t.pre}) + 9]; }} o, o2; o.c[sizeof({t.pre}) + 3] = 5; o.s = a; emit(o.c[sizeof({t.pre}) + 3]); {e('o.s')} o2 = o; {e('o2.s')} emit(o2.c[sizeof({t.pre}) + 3]);")
        yield mk("const", f"const {t.decl('x')} = a; static const {t.pre} *y; y = &a; b = x; {e('b')} c = *y; {e('c')}")
        yield mk("vol", f"volatile {t.decl('x')}; x = a; b = x; {e('b')}")
        yield mk("loop", f"int j; for (j = 0; j < 4; j++) {{ {t.decl('l')} = j & 1 ? a : b; c = l; a = b; b = c; }} {e('a')} {e('b')} {e('c')}")
        yield mk("stmt", f"a; *p; v[i]; mk@(1); (void) a; i ? a : b; a, b; {e('a')}")
        yield mk("press", f"long q0 = i, q1 = i * 2, q2 = i * 3, q3 = i * 4, q4 = i * 5, q5 = i * 6, q6 = i * 7, q7 = i * 8, q8 = i * 9; a = v[q0]; *p = a; v[q1] = *p; c = id@(v[q0]); {e('v[2]')} {e('c')} emit(q0 + 2 * q1 + 3 * q2 + 4 * q3 + 5 * q4 + 6 * q5 + 7 * q6 + 8 * q7 + 9 * q8);")
        if ok:
            yield mk("rcall", f"{pm('mk@(1)')} {pm('id@(a)')} {pm('id@(mk@(0))')}")
            yield mk("rassign", f"{pm('(a = b)')} {pm('(*p = v[2])')} {pm('(v[i] = a)')}")
            yield mk("rcond", f"{pm('(i ? a : b)')} {pm('(i ? v[2] : mk@(1))')}")
            yield mk("rcomma", f"{pm('(i++, b)')} {pm('(i, mk@(1))')}")
            yield mk("rva", f"emit(sizeof(mk@(1){m})); emit(sizeof(mk@(1)));")
    # overlap-free copies within one array, all distances, all sizes
    for n in (list(range(1, 40)) if not core.THOROUGH else range(1, 130)):
        yield Case(f"dist:{n}", "int i, j, k; for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) { for (k = 0; k < sizeof(v@); k++) ((char *) v@)[k] = k * 3 + 1; v@[i] = v@[j]; emitb(v@, sizeof(v@)); { struct { char a; s@ x[5]; char b; } l; for (k = 0; k < sizeof(l); k++) ((char *) &l)[k] = k * 5 + 1; l.x[i] = l.x[j]; emitb(&l, sizeof(l)); l.x[j] = v@[i]; emitb(&l, sizeof(l)); } }", f"typedef struct {{ char c[{n}]; }} s@; static s@ v@[5];")
    # distinct objects stay distinct: locals of every size next to each other
    for n in range(1, 34):
        for k in (1, 3, 8, 17):
            yield Case(f"sep:{n}:{k}", f"a@ a, a2; b@ b, b2; int n; char x = 11; for (n = 0; n < sizeof(a); n++) ((char *) &a)[n] = n; for (n = 0; n < sizeof(b); n++) ((char *) &b)[n] = 100 - n; a2 = a; b2 = b; for (n = 0; n < sizeof(a); n++) ((char *) &a)[n] = 9; b = b2; emitb(&a, sizeof(a)); emitb(&b, sizeof(b)); emitb(&a2, sizeof(a)); emitb(&b2, sizeof(b)); emit(x); emit((char *) &a == (char *) &a2); emit((void *) &b == (void *) &a);", f"typedef struct {{ char c[{n}]; }} a@; typedef struct {{ char c[{k}]; }} b@;")


def main():
    rep = Report("C12", LEVEL, "distinct = distinct logs of object bytes", ["gcc and clang agree on the members of copied objects"])
    cs = list(cases())
    # definitions of the structs used by the val: cases
    defs = []
    for k in "cildfDp": defs += struct(scalar(k)).defs
    for a, b in itertools.product("cildfD", repeat=2): defs += struct(scalar(a), scalar(b)).defs
    for a, b in itertools.product("cid", "chf"):
        for n in (2, 3, 5): defs += struct(scalar(a), array(scalar(b), n)).defs
    for t in (struct(scalar("l"), scalar("l"), scalar("c"), scalar("d")), struct(array(scalar("c"), 3), scalar("D")), union(scalar("i"), array(scalar("c"), 7)), struct(struct(scalar("c"), scalar("i")), union(scalar("f"), scalar("d")), array(scalar("h"), 3))): defs += t.defs
    Engine(rep, prologue="\n".join(dict.fromkeys(defs))).go(cs, batch=60)
    return rep.finish()
