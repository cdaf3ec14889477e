"""C10: sizes, alignments, offsets and bit positions of every small composition of types, against gcc's and clang's layout."""
import itertools
from .. import core
from ..core import Report
from ..diff import Case, Engine
from ..aggr import SC, scalar, struct, union, array, record, Inline, T, sort_defs

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of type compositions; each compiled program reports sizes, alignments, member offsets and the bytes every bit-field occupies, compared with gcc and clang"
NOTE = "all structs and unions of up to three members of twelve scalar kinds and seven kinds of bit-fields (four of a smaller set), all nestings of two-member aggregates, arrays, anonymous and in-place members, packed structs; the System V ABI as implemented by gcc and clang is the oracle"

S = {k: scalar(k) for k in SC}
i, I = S["i"], S["I"]
BF = [(i, 1), (i, 5), (I, 17), (i, 31), (I, 32), (i, 0), (i, -3), (i, 12)]
PACK = " __attribute__((packed))"


def types():
    plain = [S[k] for k in "chilfdDp"]
    few = [S["c"], S["h"], S["i"], S["l"], S["D"], (i, 3), (I, 30), array(S["c"], 3)]
    for kind in ("struct", "union"):
        for n in (1, 2, 3):
            pool = plain + BF if n < 3 or kind == "struct" else plain[:4] + [S["D"]] + BF[:4]
            for ms in itertools.product(pool, repeat=n):
                if all(isinstance(m, tuple) and m[1] <= 0 for m in ms): continue
                yield record(kind, ms)
    for ms in itertools.product(few, repeat=4): yield record("struct", ms)
    if core.THOROUGH:
        for ms in itertools.product([S["c"], S["i"], (i, 7), (i, 0), (I, 20), (i, -9)], repeat=5):
            if not isinstance(ms[0], tuple) or ms[0][1] > 0: yield record("struct", ms)
    # packed
    for n in (1, 2, 3):
        for ms in itertools.product([S[k] for k in "chilfdDp"] + [array(S["h"], 3)], repeat=n):
            yield record("struct", ms, PACK)
            if n < 3: yield record("union", ms, PACK)
            if n < 3:
                for j, at in enumerate(("__attribute__((packed))", "__attribute__((__packed__))")):
                    t = record("struct", ms, PACK + "/*%d*/" % j)
                    tag = t.pre + "b%d" % j
                    yield T(t.name + "before%d" % j, tag, t.leaves, t.defs[:-1] + [t.defs[-1].replace(t.pre, "struct " + at + " " + tag[7:]).replace(PACK, "")])
    for ms in itertools.product([S["c"], (i, 3), (I, 30)], repeat=2):
        t = record("struct", ms, PACK)
        if any(isinstance(m, tuple) for m in ms): yield T("pbf:" + t.name, t.pre, t.leaves, t.defs)
    # aligned, and the places attributes can be
    for al in ("__attribute__((aligned(8)))", "__attribute__((__aligned__(16)))", "__attribute__((aligned))", "__attribute__((aligned(2)))"):
        for kind in ("struct", "union"):
            for ms in itertools.product([S["c"], S["l"], S["D"], (i, 3)], repeat=2):
                t = record(kind, ms, " " + al + "/**/")
                yield T(t.name + al, t.pre, t.leaves, t.defs)
                for x in (t, array(t, 2)): yield struct(S["c"], x, S["h"])
    # nested
    inner = [record(k, ms, a) for k in ("struct", "union") for a in ("", PACK) for ms in itertools.product([S["c"], S["i"], S["l"], array(S["c"], 3)] + ([(i, 9)] if not a else []), repeat=2)]
    inner += [struct(struct(S["c"]), S["h"]), struct(array(S["D"], 2)), array(struct(S["h"], S["c"]), 2), array(union(S["i"], S["c"]), 3), array(array(S["h"], 2), 2), struct((i, 3), (i, 30)), struct((i, 3), (i, 0), S["c"])]
    outer = [S["c"], S["i"], S["l"], (i, 5), S["D"]]
    for x in inner:
        yield array(x, 2)
        for a in outer:
            yield struct(a, x)
            yield union(a, x)
            for b in outer: yield struct(a, x, b)
            if not isinstance(a, tuple):
                yield struct(a, x, attr=PACK)
                yield struct(x, a, x, attr=PACK)
                yield struct(a, array(x, 2), S["c"])
    for x, y in itertools.product(inner[::3], repeat=2): yield struct(x, y)
    # defined in place, anonymous or named
    for kind, name, okind in itertools.product(("struct", "union"), (False, True), ("struct", "union")):
        for ms in itertools.product([S["c"], S["i"], S["l"], (i, 6), array(S["h"], 3)], repeat=2):
            for a in (S["c"], S["l"], (i, 5)):
                yield record(okind, (a, Inline(kind, *ms, name=name), S["c"]))
                yield record(okind, (Inline(kind, *ms, name=name), a))
                if name or kind == "union": yield record(okind, (a, Inline("struct", S["c"], Inline(kind, *ms, name=name), name=not name), (i, 4)))


def case(t):
    d = t.decl
    out = [f"{d('o')}; {d('a[3]')}; struct {{ char c; {d('t')}; }} x; struct {{ {d('t')}; char c; }} y; emit(sizeof(o)); emit(sizeof({t.pre} {t.post})); emit(sizeof(a)); emit((char *) &x.t - (char *) &x); emit(sizeof(x)); emit((char *) &y.c - (char *) &y); emit((char *) (&a[2]) - (char *) a); emit(g@);"]
    for s, k, w in t.leaves:
        if w: out.append(f"{{ char *p = (char *) &o; int n; for (n = 0; n < sizeof(o); n++) p[n] = 0; o{s} = -1; emitb(&o, sizeof(o)); for (n = 0; n < sizeof(o); n++) p[n] = -1; o{s} = 0; emitb(&o, sizeof(o)); }}")
        else: out.append(f"emit((char *) &o{s} - (char *) &o); emit(sizeof(o{s}));")
    first = next((s for s, k, w in reversed(t.leaves) if not w and s.startswith(".")), None)
    g = f" static char *q@ = (char *) &o@{first};" if first else ""
    if first: out.append(f"emit(q@ - (char *) &o@); emit((long) &(({t.ptr('')}) 0)->{first[1:]});" if not t.post else f"emit(q@ - (char *) &o@);")
    return Case(t.name, " ".join(out), f"static {d('o@')}; enum {{ e@ = sizeof({t.pre} {t.post}) }}; static long g@ = e@ + sizeof(o@) * 1000;" + g)


class Layout(Engine):
    """The types a case uses are defined once per file."""

    def source(self, cases):
        return self.pre + "\n".join(sort_defs([c.t for c in cases])) + "\n" + "".join(c.text(i) for i, c in enumerate(cases))


class TCase(Case):
    __slots__ = ("t",)


def typed(t, c):
    r = TCase(c.key, c.body, c.decls)
    r.t = t
    return r


def main():
    rep = Report("C10", LEVEL, "distinct = distinct layouts observed", ["gcc and clang implement the System V layout"])

    def cases():
        seen = set()
        for t in types():
            if t.name not in seen:
                seen.add(t.name)
                yield typed(t, case(t))
    Layout(rep).go(cases(), batch=120)
    return rep.finish()
