"""Types as the generators of call, layout, copy and initializer cases need them: scalars, structs, unions, arrays, with code to fill and to
emit every scalar of an object."""
SC = {  # short name: (spelling, emitter, kind)
    "c": ("char", "emit"), "C": ("unsigned char", "emit"), "h": ("short", "emit"), "H": ("unsigned short", "emit"), "i": ("int", "emit"), "I": ("unsigned int", "emit"),
    "l": ("long", "emit"), "L": ("unsigned long", "emit"), "f": ("float", "emitf"), "d": ("double", "emitd"), "D": ("long double", "emitld"), "p": ("char *", "emit"),
}
BITS = {"c": 8, "C": 8, "h": 16, "H": 16, "i": 32, "I": 32, "l": 64, "L": 64}


def value(k, seed):
    """A C expression: a value of scalar kind k, different for every seed, that exercises all its bytes."""
    if k == "f": return f"{seed * 3 % 1000}.625f"
    if k in "dD": return f"{seed * 7 % 5000}.0078125" + ("L" if k == "D" else "")
    v = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & ((1 << 64) - 1)
    if k == "p": return f"((char *) 0x{v >> 20:x}l)"
    n = BITS[k]
    v >>= 64 - n
    if k in "chil" and v >> (n - 1): v -= 1 << n
    if k == "l": return f"({v}l)" if v > -(1 << 63) else "(-9223372036854775807l - 1)"
    if k == "L": return f"{v}ul"
    if k == "I": return f"{v}u"
    return f"({v})" if v > -(1 << 31) else "(-2147483647 - 1)"


class T:
    """name: used in keys. decl(v): a declaration of v. leaves: [(suffix, scalar kind, bit-field width or 0)] . defs: definitions needed, in order."""

    def __init__(self, name, pre, leaves, defs=(), post="", parts=()):
        self.name, self.pre, self.post, self.leaves, self.defs, self.parts = name, pre, post, leaves, list(defs), list(parts)

    def decl(self, v): return f"{self.pre} {v}{self.post}"
    def ptr(self, v): return f"{self.pre} (*{v}){self.post}" if self.post else f"{self.pre} *{v}"

    def fill(self, v, seed, deref=""):
        out = []
        for n, (s, k, w) in enumerate(self.leaves):
            x = value(k, seed * 31 + n + 1)
            if w: x = f"({x} & {(1 << min(w, 31)) - 1})" if k not in "lL" else f"({x} & {(1 << w) - 1 if w < 63 else (1 << 62) - 1}l)"
            out.append(f"{v}{s} = {x};")
        return " ".join(out)

    def emit(self, v):
        return " ".join(f"{SC[k][1]}({'(long) ' if k == 'p' else ''}{v}{s});" for s, k, w in self.leaves)

    @property
    def scalar(self): return len(self.leaves) == 1 and self.leaves[0][0] == ""


def scalar(k): return T(k, SC[k][0], [("", k, 0)])


def sort_defs(ts):
    out = []
    for t in ts:
        for d in t.defs:
            if d not in out: out.append(d)
    return out


_count = {}


def tag(sig):
    if sig not in _count: _count[sig] = len(_count)
    return "t%d_" % _count[sig]


class Inline:
    """A member struct/union defined in place: anonymous (name False) or with a member name."""

    def __init__(self, kind, *members, name=False, attr=""): self.kind, self.members, self.name, self.attr = kind, members, name, attr


def body_of(kind, members, prefix="m"):
    """(body text, leaves, defs, signature)"""
    body, leaves, defs, names = "", [], [], ""
    for i, m in enumerate(members):
        w = None
        if isinstance(m, tuple): m, w = m
        n = f"{prefix}{i}"
        if isinstance(m, Inline):
            b, ls, ds, sig = body_of(m.kind, m.members, "m" if m.name else n + "_")
            body += f" {m.kind} {{{b} }}{m.attr}{' ' + n if m.name else ''};"
            new = [(("." + n if m.name else "") + s, k, x) for s, k, x in ls]
            defs += [d for d in ds if d not in defs]
            names += ("n" if m.name else "a") + m.kind[0] + "{" + sig + "}"
        else:
            defs += [d for d in m.defs if d not in defs]
            if w is None:
                body += " " + m.decl(n) + ";"
                new = [(f".{n}{s}", k, b) for s, k, b in m.leaves]
                names += m.name
            elif w <= 0:    # unnamed
                body += f" {m.pre} : {-w};"
                new = []
                names += f"{m.name}_{-w}"
            else:
                body += f" {m.pre} {n} : {w};"
                new = [(f".{n}", m.leaves[0][1], w)]
                names += f"{m.name}:{w}"
        if kind == "union": leaves = max(leaves, new, key=lambda ls: sum({"D": 16, "d": 8, "f": 4, "p": 8}.get(k, BITS.get(k, 0) // 8) for _, k, _ in ls))
        else: leaves += new
    return body, leaves, defs, names


def record(kind, members, attr=""):
    """kind: struct/union. members: T, (T, bit-field width; 0 or negative: unnamed) or Inline."""
    body, leaves, defs, names = body_of(kind, members)
    sig = ("s" if kind == "struct" else "u") + "{" + names + "}" + ("P" if "packed" in attr else "A" + attr.strip() if attr else "")
    name = f"{kind} {tag(sig)}"
    return T(sig, name, leaves, defs + [f"{name} {{{body} }}{attr};"], parts=members)


def struct(*m, attr=""): return record("struct", m, attr)
def union(*m, attr=""): return record("union", m, attr)


def array(t, n):
    return T(f"{t.name}[{n}]", t.pre, [(f"[{i}]{s}", k, w) for i in range(n) for s, k, w in t.leaves], t.defs, f"[{n}]{t.post}")
