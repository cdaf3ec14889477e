"""C11: every position and width of a bit-field, every access, every place an object can live, against gcc and clang."""
import itertools
from .. import core
from ..core import Report
from ..diff import Case, Engine

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of bit-field positions, widths, operations, operand values and object locations; the bytes of the whole object and the value of every expression are compared with gcc and clang"
NOTE = "all 528 positions and widths in a 32-bit unit for signed and unsigned fields, stores of boundary values over all-zeros and all-ones, every operator on every width, ten kinds of locations, pairs and triples of neighbours; int and unsigned int fields only (wcc supports no others)"

VALS = "0, 1, -1, 2, -2, 5, 0x55555555, 0xaaaaaaaau, 0x7fffffff, 0x80000000u, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x1234567"
OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]
IMG = "emitb(&o, sizeof(o));"


def fields(o, w, u):
    s = ""
    if o: s += f"unsigned a{' ' if o else ''}: {o}; "
    s += f"{'unsigned' if u else 'int'} f : {w}; "
    if 32 - o - w: s += f"unsigned z : {32 - o - w}; "
    return s


def cases():
    # every position and width: store, value of the store, load, neighbours
    for u in (0, 1):
        for w in range(1, 33):
            for o in range(0, 33 - w):
                decl = f"struct s@ {{ int b; {fields(o, w, u)}int e; }}; "
                body = f"struct s@ o, *p = &o; unsigned v[] = {{ {VALS} }}; int i, j, k; for (j = 0; j < 2; j++) for (i = 0; i < sizeof(v) / sizeof(v[0]); i++) {{ for (k = 0; k < sizeof(o); k++) ((char *) p)[k] = -j; emit(o.f = v[i]); {IMG} emit(p->f); emit(o.b); p->f = ~v[i]; {IMG} emit(o.f); "
                if o: body += "o.a = v[i] >> 3; emit(o.f); emit(p->a); "
                if 32 - o - w: body += f"p->z = v[i] * 3; emit(p->f); emit(o.z); {IMG} "
                yield Case(f"pos:{'u' if u else 's'}:{o}:{w}", body + "}", decl)
    # every operator on every width
    for u, w in itertools.product((0, 1), range(1, 33)):
        o = (w * 7) % (33 - w)
        for s in ([0, 5] if core.THOROUGH else [0]):
            oo = (o + s) % (33 - w)
            decl = f"struct s@ {{ {fields(oo, w, u)} }}; "
            init = "1000" if w >= 11 else str((1 << w) - 1)
            lim = ["1", "3", "-1", "2", "12"]
            for op in OPS:
                b = f"struct s@ o; static int x[] = {{ 0, 1, 2, 3, -1, -2, 12, {init} }}; int i, j; "
                rhs = ["1", "3", "7", "-3", "j"] if op not in ("<<", ">>") else ["1", "3", "0", "2", "(j & 3)"]
                for r in rhs:
                    neg = "& 0x7ff" if op == "<<" else ""
                    b += f"for (i = 0; i < 8; i++) for (j = 1; j < 4; j++) {{ *(unsigned *) &o = 0x{'5a5a5a5a' if w & 1 else 'a5a5a5a5'}u; o.f = x[i]; {'if (o.f < 0) o.f = 0;' if op == '<<' and not u else ''} emit(o.f {op} {r}); emit((o.f {op} {r}) < 0); emit(o.f {op}= {r}); {IMG} }} "
                yield Case(f"op:{'u' if u else 's'}:{w}:{oo}:{op}", b, decl)
            for e in ("++o.f", "o.f++", "--o.f", "o.f--", "-o.f", "~o.f", "!o.f", "+o.f"):
                yield Case(f"un:{'u' if u else 's'}:{w}:{oo}:{e}", f"struct s@ o; static int x[] = {{ 0, 1, -1, 2, 100, {init}, -({init} / 2 + 1) }}; int i; for (i = 0; i < 7; i++) {{ *(unsigned *) &o = 0x12345678 + i; o.f = x[i]; emit({e}); emit(({e}) < 0); emit(({e}) >> 1); {IMG} }}", decl)
            yield Case(f"use:{'u' if u else 's'}:{w}:{oo}", f"struct s@ o, q; static int x[] = {{ 0, 1, -1, 2, {init} }}; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) {{ o.f = x[i]; q.f = x[j]; emit(o.f < q.f); emit(o.f == q.f); emit(o.f >= x[j]); emit(o.f > -1); emit(o.f - q.f < 0); emit(o.f && q.f); emit(o.f || q.f); emit(!o.f); emit(o.f ? 3 : 4); emit(i ? o.f : q.f); if (o.f) emit(7); while (o.f) {{ o.f = 0; emit(8); }} o.f = q.f = x[i]; emit(o.f); emit(q.f); emitd(o.f); emitd(o.f + 0.5); emit((long) o.f << 33); emit((char) o.f); emit((o.f, q.f)); switch (o.f) {{ case 0: emit(1); break; case 1: emit(2); break; case -1: emit(3); break; default: emit(4); }} {{ char ar[8]; int n; for (n = 0; n < 8; n++) ar[n] = n; emit(ar[o.f & 7]); emit(*(ar + (o.f & 3))); }} o.f = 1.75; emit(o.f); o.f = (char) 255; emit(o.f); o.f = 0x100000001l; emit(o.f); }}", decl)
    # places
    for u, (w, o) in itertools.product((0, 1), [(1, 0), (1, 31), (5, 3), (8, 8), (7, 9), (16, 16), (16, 8), (17, 4), (31, 0), (31, 1), (32, 0), (24, 8)]):
        decl = f"struct s@ {{ char pre; {fields(o, w, u)}short post; }}; struct n@ {{ char x; struct s@ in[2]; int k; }}; union u@ {{ struct s@ s; {fields(o, w, u).split(';')[0 if not o else 1]}; char c[12]; }}; static struct s@ g@, ga@[3]; static struct n@ gn@; static struct s@ rs@(int x) {{ struct s@ r; int i; for (i = 0; i < sizeof(r); i++) ((char *) &r)[i] = 0x5a; r.f = x; return r; }} static int ps@(struct s@ a, int k, struct s@ b) {{ emit(a.f); emit(b.f); b.f++; a.f = k; emit(a.f); emit(b.f); return a.f; }} "
        mem = ["pre", "post", "f"] + ["a"] * (o > 0) + ["z"] * (o + w < 32)
        pre = "static int x[] = { 0, 1, -1, 3, 100, 0x5555 }; int i, n; struct s@ o, a[3], *p = &o; struct n@ m, *q = &m; union u@ un; static struct s@ st; char *z; "
        zero = lambda v: f"for (n = 0; n < sizeof({v}); n++) ((char *) &{v})[n] = 0x33; "
        for name, lv, img in [("local", "o.f", "o"), ("ptr", "p->f", "o"), ("global", "g@.f", "g@"), ("static", "st.f", "st"), ("arr", "a[1].f", "a"), ("arrv", "a[i % 3].f", "a"), ("garrv", "ga@[i % 3].f", "ga@"), ("nest", "m.in[1].f", "m"), ("nestp", "q->in[i & 1].f", "m"),
                              ("gnest", "gn@.in[i & 1].f", "gn@"), ("deref", "(*p).f", "o"), ("ptradd", "(p + i - i)->f", "o"), ("un", "un.s.f", "un"), ("unf", "un.f", "un"), ("addr", "(&a[0] + 2)->f", "a"), ("call", "(emit(i), p)->f", "o")]:
            yield Case(f"loc:{'u' if u else 's'}:{w}:{o}:{name}", pre + f"for (i = 0; i < 6; i++) {{ {zero(img)} emit({lv} = x[i]); emit({lv}); emitb(&{img}, sizeof({img})); emit({lv} += 1); emit({lv}++); emit(--{lv}); emit({lv} ^= 5); emit(({lv} & 3) << 2); {lv} = {lv}; n = {lv}; emit(n); {'st.f' if name != 'static' else 'o.f'} = {lv}; emit({'st.f' if name != 'static' else 'o.f'}); emitb(&{img}, sizeof({img})); }}", decl)
        yield Case(f"loc:{'u' if u else 's'}:{w}:{o}:ret", pre + "for (i = 0; i < 6; i++) { emit(rs@(x[i]).f); emit(rs@(x[i]).f + 1); o = rs@(x[i]); " + "".join(f"emit(o.{m}); " for m in mem) + "emit(ps@(o, x[i], rs@(i))); " + "".join(f"emit(o.{m}); " for m in mem) + "}", decl)
        yield Case(f"loc:{'u' if u else 's'}:{w}:{o}:copy", pre + "for (i = 0; i < 6; i++) { o = rs@(x[i]); a[1] = o; a[i % 3] = a[1]; emit(a[i % 3].f); m.in[1] = a[1]; m.in[0] = rs@(i); emit(q->in[1].f); emit(q->in[0].f); un.s = m.in[1]; emit(un.s.f); { struct s@ l = un.s; emit(l.f); } { struct s@ t; t = i ? o : a[1]; emit(t.f); } }", decl)
        yield Case(f"loc:{'u' if u else 's'}:{w}:{o}:press", pre + "for (i = 0; i < 6; i++) { long q0 = i, q1 = i + 1, q2 = i * 2, q3 = i * 3, q4 = i * 4, q5 = i * 5, q6 = i * 6, q7 = i * 7; " + zero("o") + " o.f = q0 + q1; emit(o.f); p->f += q2 * q3; emit(p->f + q4); o.f = o.f * 3 + q5; emit(q0 + 2 * q1 + 3 * q2 + 4 * q3 + 5 * q4 + 6 * q5 + 7 * q6 + 8 * q7); emitb(&o, sizeof(o)); }", decl)
    # initializers, and mixes with other members
    ws = [1, 3, 8, 13, 17, 31, 32]
    for n in (1, 2, 3):
        for combo in itertools.product(ws, repeat=n):
            for gap in ("", "int : 0;", "unsigned : 5;", "char c;"):
                if n == 3 and not core.THOROUGH and gap in ("unsigned : 5;",): continue
                mem = f" {gap} ".join(f"{'unsigned' if (i + w) & 1 else 'int'} f{i} : {w};" for i, w in enumerate(combo))
                has_c = gap.startswith("char") and n > 1
                if has_c: mem = mem.replace("char c;", "char c0;", 1).replace("char c;", "char c1;", 1)
                vals = [str((-1) ** i * (5 + i * 3)) if w > 5 else "1" for i, w in enumerate(combo)]
                il = ", 7, ".join(vals) if has_c else ", ".join(vals)
                fl = [f"f{i}" for i in range(n)]
                rd = "".join(f"emit({{0}}{f});" for f in fl)
                decl = f"struct s@ {{ {mem} short t; }}; static struct s@ g@ = {{ {il}, 9 }}, ga@[2] = {{ {{ {vals[0]} }}, {{ {il} }} }}; struct w@ {{ char h; struct s@ in; int k; }}; static struct w@ gw@ = {{ 1, {{ {il}, 4 }}, 5 }}, ge@ = {{ 1, {il}, 4, 5 }}; "
                body = f"int v = 2; struct s@ o = {{ {il}, 9 }}, a[2] = {{ {{ {vals[0]} }}, {{ {il} }} }}, d = {{ v, {'v, ' if has_c else ''}{'v + 1' if n > 1 else '3'} }}; struct w@ l = {{ 1, {{ {il}, 4 }}, 5 }}, e = {{ 1, {il}, 4, 5 }}; "
                for x in ("g@.", "ga@[0].", "ga@[1].", "gw@.in.", "ge@.in.", "o.", "a[0].", "a[1].", "d.", "l.in.", "e.in."): body += rd.replace("{0}", x)
                body += "emit(g@.t); emit(gw@.k); emit(ge@.k); emit(o.t); emit(l.k); emit(e.k); emit(a[0].t);"
                for i in range(n): body += f" o.f{i} = -1; {rd.replace('{0}', 'o.')} o.f{i} = {vals[i]}; ga@[v & 1].f{i}++; {rd.replace('{0}', 'ga@[0].')}"
                yield Case(f"init:{','.join(map(str, combo))}:{gap.replace(' ', '')}", body, decl)


def main():
    rep = Report("C11", LEVEL, "distinct = distinct logs of values and object bytes", ["gcc and clang agree on what bit-fields hold"])
    Engine(rep).go(cases(), batch=40)
    return rep.finish()
