"""C14: every assignment operator on every pair of scalar types and every kind of lvalue, and every pointer operation on every element type;
values, types of results, neighbours and evaluation counts compared with gcc and clang."""
import itertools
from .. import core
from ..core import Report
from ..ctypes_ import INT, lo, hi, wrap, common, promote, signed, size, cname
from ..diff import Case, Engine

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of assignment and increment operators times type pairs times kinds of lvalues, and of pointer operations times element and index types, over boundary values; differential against gcc and clang"
NOTE = "Values that make an operation undefined are left out. The whole container of every lvalue is compared, so a store outside of the object shows, and so does evaluating the lvalue twice."

TY = {"sc": "signed char", "uc": "unsigned char", "ss": "short", "us": "unsigned short", "si": "int", "ui": "unsigned int", "sl": "long", "ul": "unsigned long", "f": "float", "d": "double", "D": "long double"}
EM = {"f": "emitf", "d": "emitd", "D": "emitld"}
OPS = ["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]
FLT = {"f", "d", "D"}
FV = ["0.0", "1.0", "-1.5", "2.25", "100.75", "-127.5", "0.0078125", "30000.0"]


def vals(t):
    if t in FLT: return [(float(x), x) for x in FV]
    v = {0, 1, 2, 3, 7, lo(t), lo(t) + 1, hi(t), hi(t) - 1, hi(t) // 3}
    if signed(t): v |= {-1, -2, -7}
    return [(x, lit(x, t)) for x in sorted(v)]


def lit(v, t):
    if v == -(1 << 63): return "(-9223372036854775807l - 1)"
    if v == -(1 << 31): return "(-2147483647 - 1)"
    return f"{v}{'u' if t in ('ui', 'ul') else ''}{'l' if size(t) == 8 else ''}"


def ok(op, a, x, b, y):
    """Is a op= b defined for these values?"""
    f = a in FLT or b in FLT
    if f:
        if op in ("%=", "&=", "|=", "^=", "<<=", ">>="): return False
        if op == "/=" and y == 0: return False
        r = {"=": lambda: y, "+=": lambda: x + y, "-=": lambda: x - y, "*=": lambda: x * y, "/=": lambda: x / y}[op]()
        if a not in FLT:
            if abs(r) > 2**62 or not (lo(a) <= int(r) <= hi(a)): return False
            if not signed(a) and r < 0: return False
            # rounding in a narrower format could take it over the edge
            if int(r) and abs(r) > 0.99 * hi(a): return False
        return True
    if op == "=": return True
    if op in ("<<=", ">>="):
        p = promote(a)
        if not 0 <= y < size(p) * 8: return False
        return True
    if op in ("/=", "%="):
        c = common(a, b)
        u, v = wrap(x, c), wrap(y, c)
        if v == 0 or (v == -1 and u == lo(c)): return False
    return True


def em(t, e):
    if t in FLT: return f"{EM[t]}({e});"
    return f"emit({e});"


# kinds of lvalues: name: (declarations with T the type, setup, lvalue, container dumped, extra observations)
KINDS = {
    "local": ("T o;", "", "o", "o", ""), "reg": ("register T o;", "", "o", None, ""), "global": ("", "", "g@.m", "g@", ""), "static": ("static struct b@ s;", "", "s.m", "s", ""), "member": ("struct b@ s;", "", "s.m", "s", ""), "arrow": ("struct b@ s, *p = &s;", "", "p->m", "s", ""), "deref": ("struct b@ s; T *p;", "p = &s.m;", "*p", "s", ""), "postinc": ("struct b@ s; T *p;", "p = s.v;", "*p++", "s", "emit(p - s.v);"), "preinc": ("struct b@ s; T *p;", "p = s.v;", "*++p", "s", "emit(p - s.v);"), "predec": ("struct b@ s; T *p;", "p = s.v + 2;", "*--p", "s", "emit(p - s.v);"), "postdec": ("struct b@ s; T *p;", "p = s.v + 1;", "*p--", "s", "emit(p - s.v);"),
    "idx": ("struct b@ s;", "", "s.v[1]", "s", ""), "idxv": ("struct b@ s; int i;", "i = 1;", "s.v[i]", "s", "emit(i);"), "idxinc": ("struct b@ s; int i;", "i = 1;", "s.v[i++]", "s", "emit(i);"), "idxpre": ("struct b@ s; char i;", "i = 1;", "s.v[++i]", "s", "emit(i);"), "gidx": ("int i;", "i = 2;", "g@.v[i]", "g@", ""), "call": ("", "calls@ = 0;", "*f@(1)", "g@", "emit(calls@);"), "callidx": ("", "calls@ = 0;", "f@(0)[1]", "g@", "emit(calls@);"), "callm": ("", "calls@ = 0;", "h@()->m", "g@", "emit(calls@);"), "pp": ("struct b@ s; T *p, **q = &p;", "p = s.v + 1;", "**q", "s", ""), "ppinc": ("struct b@ s; T *p, **q = &p;", "p = s.v;", "*(*q)++", "s", "emit(p - s.v);"), "vol": ("struct b@ s; volatile T *p;", "p = &s.m;", "*p", "s", ""), "union": ("union { T m; char c[24]; } s;", "", "s.m", "s", ""), "two": ("struct { char a; T v[3][2]; char z; } s; int i, j;", "i = 2; j = 1;", "s.v[i][j]", "s", ""), "paren": ("struct b@ s, *p = &s;", "", "((*p).m)", "s", ""), "rev": ("struct b@ s; int i;", "i = 2;", "i[s.v]", "s", ""), "ptr2": ("struct b@ s[3], *p = s; int i;", "i = 1;", "(p + i)->v[i]", "s", ""), "param": ("", "", "", "", ""),
}
BOX = "struct b@ { char a; T m; char b; T v[3]; char z; }; static struct b@ g@; static int calls@; static T *f@(int i) { calls@++; return g@.v + i; } static struct b@ *h@(void) { calls@++; return &g@; } "


def fill(c): return f"for (n = 0; n < sizeof({c}); n++) ((char *) &{c})[n] = n * 7 + 1; " if c else ""


def cases():
    names = list(TY)
    # all type pairs, all operators
    for a, b in itertools.product(names, names):
        for op in OPS:
            if (a in FLT or b in FLT) and op in ("%=", "&=", "|=", "^=", "<<=", ">>="): continue
            vb = vals(b)
            if op in ("<<=", ">>="): vb = [(v, lit(v, b)) for v in (0, 1, 5, 7, 8, 15, 31, 32, 63) if v <= hi(b)]
            # a tie in double rounding could make x87 and SSE differ; the values are exact
            ps = [(x, y) for x in vals(a) for y in vb if ok(op, a, x[0], b, y[0])]
            for n in range(0, len(ps), 70):
                q = ps[n:n + 70]
                body = f"struct {{ char p; {TY[a]} m; char q; }} s; {TY[a]} l; static {TY[a]} x[] = {{ {', '.join(p[0][1] for p in q)} }}; static {TY[b]} y[] = {{ {', '.join(p[1][1] for p in q)} }}; int k; s.p = 11; s.q = 22; for (k = 0; k < {len(q)}; k++) {{ l = x[k]; {em(a, f'l {op} y[k]')} {em(a, 'l')} s.m = x[k]; {em(a, f's.m {op} y[k]')} {em(a, 's.m')} emit(s.p + s.q); g@ = x[k]; g@ {op} y[k]; {em(a, 'g@')} emit((l {op} y[k]) < 0); l = x[k]; emit((l {op} y[k]) == l); }} emit(sizeof(l {op} y[0]));"
                if op in ("<<=", ">>="): body = body.replace(f"emit((l {op} y[k]) < 0); ", "")
                yield Case(f"pair:{a}:{op}:{b}:{n}", body.replace(f"emit((l {op} y[k]) < 0); ", f"l = x[k]; emit((l {op} y[k]) < 0); "), f"static {TY[a]} g@;")
            # constants on the right
            cs = [(x, y) for x in vals(a) for y in vb if ok(op, a, x[0], b, y[0])]
            byc = {}
            for x, y in cs: byc.setdefault(y[1], []).append(x[1])
            if op != "=" or True:
                body = f"{TY[a]} l; int k; "
                for y, xs in byc.items():
                    if y.startswith("-") or y.startswith("("): y = f"({y})"
                    c = f"({TY[b]}) {y}" if b not in ("si", "sl", "ui", "ul", "d") else y
                    body += f"{{ static {TY[a]} x[] = {{ {', '.join(xs)} }}; for (k = 0; k < {len(xs)}; k++) {{ l = x[k]; {em(a, f'l {op} {c}')} }} }} "
                if byc: yield Case(f"const:{a}:{op}:{b}", body)
        # nested and chained
    for a, b in itertools.product(names, names):
        va = [y for x, y in vals(a) if a in FLT or -128 <= x <= 127]
        vals_ = ", ".join(v for v in va if not v.startswith("-"))
        yield Case(f"chain:{a}:{b}", f"{TY[a]} x, z; {TY[b]} y; static {TY[a]} v[] = {{ {vals_} }}; int k; for (k = 0; k < sizeof(v) / sizeof(v[0]); k++) {{ if (v[k] > 100) continue; x = y = v[k]; {em(a, 'x')} {em(b, 'y')} z = x = (y = v[k]) + 1; {em(a, 'z')} {em(b, 'y')} x += y -= 1; {em(a, 'x')} {em(b, 'y')} z = (x -= 2, y += x); {em(a, 'z')} {em(b, 'y')} if (x = v[k]) emit(1); else emit(0); while (y = x) {{ x = 0; emit(5); }} emit(!(x = v[k])); emit((x = 3) && (y = 0)); z = (x = v[k]) ? 1 : 2; {em(a, 'z')} {em(b, '(y = x) + 1')} }}")
    # ++ and --
    for t in names:
        v = ", ".join(y for _, y in vals(t))
        for e in ("++%s", "%s++", "--%s", "%s--"):
            for kn, (d, st, lv, box, obs) in KINDS.items():
                if kn == "param": continue
                r = lambda s: s.replace("T ", TY[t] + " ").replace("(T)", TY[t])
                lvp = f"({lv})" if lv.startswith("*") else lv
                ex = e % lvp
                plain = {"postinc": "s.v[0]", "preinc": "s.v[1]", "predec": "s.v[1]", "postdec": "s.v[1]", "idxinc": "s.v[1]", "idxpre": "s.v[2]", "ppinc": "s.v[0]", "call": "g@.v[1]", "callidx": "g@.v[1]", "callm": "g@.m"}.get(kn, lv)
                yield Case(f"inc:{t}:{e}:{kn}", r(d) + f" static {TY[t]} x[] = {{ {v} }}; int k, n; for (k = 0; k < sizeof(x) / sizeof(x[0]); k++) {{ {fill(box) if t != 'D' else ''} {st} {plain} = x[k]; {em(t, ex)} {em(t, plain)} {obs} {f'emitb(&{box}, sizeof({box}));' if box and t != 'D' else ''} {st} {ex}; {em(t, plain)} {obs} }} emit(sizeof({ex}));", r(BOX))
    # every kind of lvalue with every operator
    for kn, (d, st, lv, box, obs) in KINDS.items():
        if kn == "param": continue
        plain = {"postinc": "s.v[0]", "preinc": "s.v[1]", "predec": "s.v[1]", "postdec": "s.v[1]", "idxinc": "s.v[1]", "idxpre": "s.v[2]", "ppinc": "s.v[0]", "call": "g@.v[1]", "callidx": "g@.v[1]", "callm": "g@.m"}.get(kn, lv)
        for t in names:
            for op in OPS:
                if t in FLT and op in ("%=", "&=", "|=", "^=", "<<=", ">>="): continue
                r = lambda s: s.replace("T ", TY[t] + " ")
                body = r(d) + f" static {TY[t]} x[] = {{ 1, 2, 5, 60, 100 }}; signed char c = 3; long w = 2; double e = 1.5; int k, n, y = 3, *py = &y; for (k = 0; k < 5; k++) {{ "
                rhs = [("y", "si"), ("c", "sc"), ("w", "sl"), ("2", "si"), ("*py", "si"), ("(y & 1) + w", "sl"), ("x[k] / 2 + 1", t), ("gf@(3)", "si")]
                if op not in ("%=", "&=", "|=", "^=", "<<=", ">>="): rhs += [("e", "d"), ("e * y", "d")]
                for q, bt in rhs:
                    if t in FLT and op in ("<<=", ">>=", "%="): continue
                    if op in ("<<=", ">>=") and q.startswith(("x[k]",)): continue
                    if q.startswith("x[k]") and t in FLT and op in ("%=",): continue
                    body += f"{fill(box) if t != 'D' else ''} {st} {plain} = x[k]; {em(t, f'{lv} {op} {q}')} {em(t, plain)} {obs} {f'emitb(&{box}, sizeof({box}));' if box and t != 'D' else ''} "
                yield Case(f"kind:{kn}:{t}:{op}", body + "}", r(BOX) + "static int gf@(int x) { return x - 1; } ")
    # parameters
    for t in names:
        for op in OPS:
            if t in FLT and op in ("%=", "&=", "|=", "^=", "<<=", ">>="): continue
            yield Case(f"param:{t}:{op}", f"int k; static {TY[t]} x[] = {{ 1, 2, 5, 60, 100 }}; for (k = 0; k < 5; k++) {em(t, 'f@(1, x[k], 2, 3, 4, 5, 6, x[4 - k])')}", f"static {TY[t]} f@(int a, {TY[t]} p, int b, int c, int d, int e, int f, {TY[t]} q) {{ {TY[t]} *r = &q; p {op} 2; q {op} 3; {em(t, 'p')} {em(t, 'q')} p {op} b; *r {op} c; {em(t, 'p++')} {em(t, '--q')} {em(t, 'p')} return p + q; }}")
    # pointers: every element type, every index type, every operation
    ELEM = {"char": ("char", ""), "uchar": ("unsigned char", ""), "short": ("short", ""), "int": ("int", ""), "long": ("long", ""), "float": ("float", ""), "double": ("double", ""), "ld": ("long double", ""), "ptr": ("char *", ""), "s1": ("struct { char c; }", ""), "s3": ("struct { char c[3]; }", ""), "s6": ("struct { short c[3]; }", ""), "s12": ("struct { int c[3]; }", ""), "s24": ("struct { long c[3]; }", ""), "s5": ("struct { char c[5]; }", ""), "s40": ("struct { long a; char c[30]; }", ""), "s7": ("struct { char a[7]; }", ""), "s33": ("struct { char a[33]; }", ""), "s100": ("struct { int a[25]; }", ""), "a3": ("int", "[3]"), "a5": ("char", "[5]"), "a23": ("short", "[2][3]"), "fp": ("int (*%s)(int)", None), "un": ("union { double d; char c[9]; }", ""), "pp": ("int **", "")}
    IDX = ["signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long"]
    for en, (pre, post) in ELEM.items():
        td = f"typedef {pre % 'e@' if post is None else pre + ' e@' + post}; typedef e@ *p@; static struct {{ char x; e@ v[16]; }} gs@; static e@ ga@[16]; "
        for it in IDX:
            neg = not it.startswith("unsigned")
            rng = f"for (k = {-3 if neg else 0}; k <= 4; k++)"
            d = "#define" and ""
            D = lambda e: f"emit((char *) ({e}) - B);"
            pos = f"i = k < 0 ? 0 : k; " if not neg else "i = k; "
            body = f"e@ l[16]; p@ p, q, *pp = &p; {it} i; int k, j; char *B; struct {{ char c; p@ p; }} s; static p@ sp; for (j = 0; j < 3; j++) {{ p@ base = j == 0 ? l : j == 1 ? ga@ : gs@.v; B = (char *) base; q = base + 8; {rng} {{ {pos}p = q; {D('p + i')} {D('i + p')} {D('p - i')} {D('&p[i]')} {D('&i[p]')} {D('p += i')} {D('p')} {D('p -= i')} {D('p')} *pp += i; {D('p')} *pp = q; s.p = q; {D('s.p -= i')} sp = q; {D('sp += i')} {D('sp')} {D('p + i + 1')} {D('p + (i - 1)')} {D('p - 2 + i')} {D('p + i * 2 - i')} {D('&(p + i)[1]')} {D('&*(p + i)')} p = q + i; emit(p - q); emit(q - p); emit(p > q); emit(p >= q); emit(p < q); emit(p <= q); emit(p == q); emit(p != q); emit((p - base) - i); emit(p - (q + 3)); emit(sizeof(p - q)); emit(sizeof(*p)); }} }}"
            yield Case(f"ptr:{en}:{it}", body, td)
        D = lambda e: f"emit((char *) ({e}) - B);"
        incs = "".join(f"p = q; {D(x)} {D('p')} " for x in ("p++", "++p", "p--", "--p", "p += 3", "p -= 2", "p += -1", "p += 1l", "p += 2u")) + "".join(f"s.p = q; {D(x)} {D('s.p')} " for x in ("s.p++", "++s.p", "s.p--", "--s.p")) + "".join(f"v[i] = q; {D(x)} {D('v[1]')} " for x in ("v[i]++", "++v[i]", "v[i]--", "--v[1]", "v[i] += 2")) + "".join(f"p = q; {D(x)} {D('p')} " for x in ("(*pp)++", "++*pp", "(*pp)--", "--*pp", "*pp += 4")) + "".join(D(x) for x in ("q + 1", "q - 1", "1 + q", "&q[3]", "&q[-2]", "q + 0", "q + 'a' - 'b'", "q + (5 > 3)", "&q[sizeof(char)]", "q + 2l", "q - 2u + 1"))
        yield Case(f"ptrinc:{en}", f"e@ l[16]; p@ p, q, *pp = &p, v[3]; int i = 1, j; char *B; struct {{ char c; p@ p; }} s; for (j = 0; j < 2; j++) {{ p@ base = j ? ga@ : l; B = (char *) base; q = base + 8; {incs} emit(q - base); emit(&q[3] - &base[1]); emit(q + 3 - (base + 2)); emit(!p); emit(p && q); emit(p == 0); emit(0 != q); p = 0; emit(!p); emit(p == 0); emit(p ? 1 : 2); if (p) emit(7); for (p = base; p < base + 5; p++) emit(p - base); for (p = base + 4; p != base; --p) emit(p - base); while (p++ < base + 3) emit(p - base); i = 5; do emit((base + i) - base); while (i--); i = 1; }}", td)
        yield Case(f"arr:{en}", f"e@ l[16]; int i; emit((char *) &l[1] - (char *) l); emit((char *) (l + 3) - (char *) &l[0]); emit(&l[5] - l); emit((l + 9) - &l[2]); for (i = 0; i < 16; i++) {{ emit((char *) &l[i] - (char *) l); emit((char *) &ga@[15 - i] - (char *) ga@); emit((char *) (gs@.v + i) - (char *) &gs@); emit(&gs@.v[i] - gs@.v); emit(&l[i] == l + i); emit(&l[i] < &l[7]); }} emit(sizeof(l)); emit(sizeof(*l)); emit(sizeof(&l)); emit((char *) (&l + 1) - (char *) l); emit((char *) (&ga@ + 1) - (char *) ga@);", td)
    # many-dimensional arrays: every index combination
    for t, (a, b, c) in itertools.product(("char", "short", "int", "long", "double"), [(2, 3, 4), (3, 1, 5), (1, 2, 7), (4, 4, 2), (2, 5, 3)]):
        body = f"{t} l[{a}][{b}][{c}], (*p)[{b}][{c}] = l, (*q)[{c}], *r; static {t} s[{a}][{b}][{c}]; int i, j, k, n = 0; char ci; long lj; for (i = 0; i < {a}; i++) for (j = 0; j < {b}; j++) for (k = 0; k < {c}; k++) {{ ci = i; lj = j; l[i][j][k] = n; g@[i][j][k] = n + 1; s[ci][lj][k] = n + 2; n++; emit(((char *) &l[i][j][k] - (char *) l)); emit(p[i][j][k] == l[i][j][k]); emit(*(*(*(p + i) + j) + k)); q = p[i]; emit(q[j][k]); r = q[j]; emit(r[k]); emit((*(l + i))[j][k]); emit(k[j[i[l]]]); emit((&l[0][0][0])[i * {b * c} + j * {c} + k]); emit(&l[i][j][k] - &l[0][0][0]); emit(q + j - l[0]); emit(sizeof(l[i]) + sizeof(l[i][j]) + sizeof(l[i][j][k])); l[i][j][k] += 3; g@[i][j][k]++; --s[i][j][k]; }} emitb(l, sizeof(l)); emitb(g@, sizeof(g@)); emitb(s, sizeof(s));"
        yield Case(f"dim:{t}:{a}{b}{c}", body, f"static {t} g@[{a}][{b}][{c}];")


def main():
    rep = Report("C14", LEVEL, "distinct = distinct logs", ["gcc -fwrapv and clang agree on the value"])
    Engine(rep).go(list(cases()), batch=60)
    return rep.finish()
