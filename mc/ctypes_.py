"""The integer types of x86-64 LP64 and C89's conversions, as the generators need them."""

INT = {  # name: (size, signed, C spelling)
    "sc": (1, True, "signed char"), "uc": (1, False, "unsigned char"), "ss": (2, True, "short"), "us": (2, False, "unsigned short"),
    "si": (4, True, "int"), "ui": (4, False, "unsigned int"), "sl": (8, True, "long"), "ul": (8, False, "unsigned long"),
    "ch": (1, True, "char"), "ll": (8, True, "long long"), "ull": (8, False, "unsigned long long"), "en": (4, False, "enum E_"),
}
RANK = {"sc": 0, "uc": 0, "ch": 0, "ss": 1, "us": 1, "si": 2, "ui": 2, "en": 2, "sl": 3, "ul": 3, "ll": 3, "ull": 3}


def size(t): return INT[t][0]
def signed(t): return INT[t][1]
def cname(t): return INT[t][2]


def lo(t): return -(1 << (size(t) * 8 - 1)) if signed(t) else 0
def hi(t): return (1 << (size(t) * 8 - 1)) - 1 if signed(t) else (1 << size(t) * 8) - 1


def wrap(v, t):
    n = size(t) * 8
    v &= (1 << n) - 1
    if signed(t) and v >> (n - 1): v -= 1 << n
    return v


def promote(t): return "si" if size(t) < 4 else t
def common(a, b):
    a, b = promote(a), promote(b)
    if size(a) != size(b): return a if size(a) > size(b) else b
    return a if not signed(a) else b


def result_type(op, a, b):
    if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"): return "si"
    if op in ("<<", ">>"): return promote(a)
    return common(a, b)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def evaluate(op, a, ta, b, tb):
    """The value C defines for a op b, or None when it is undefined."""
    if op == "&&": return int(bool(a) and bool(b))
    if op == "||": return int(bool(a) or bool(b))
    if op in ("<<", ">>"):
        t = promote(ta)
        a = wrap(a, t)
        n = size(t) * 8
        if b < 0 or b >= n: return None
        return wrap(a << b, t) if op == "<<" else a >> b
    t = common(ta, tb)
    a, b = wrap(a, t), wrap(b, t)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
    if op in ("/", "%"):
        if b == 0: return None
        q = tdiv(a, b)
        if signed(t) and not lo(t) <= q <= hi(t): return None
        return q if op == "/" else a - q * b
    r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
    if op in "+-*" and signed(t) and not lo(t) <= r <= hi(t): return None
    return wrap(r, t)


BINOPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]
OPNAME = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr", "==": "eq",
          "!=": "ne", "<": "lt", ">": "gt", "<=": "le", ">=": "ge", "&&": "land", "||": "lor", "~": "not", "!": "lnot"}


def values(t):
    v = {0, 1, 2, 3, 5, 7, 8, 16, 127, 128, 255, 256, 32767, 32768, 65535, 65536, -1, -2, -3, -8, -128, -129, lo(t), lo(t) + 1, hi(t), hi(t) - 1,
         1 << 31, (1 << 31) - 1, -(1 << 31), (1 << 32) - 1, 1 << 32, 1 << (size(t) * 8 - 2), 1 << (size(t) * 8 - 1), 31, 32, 63, 100, -100, 0x12345678}
    return sorted(x for x in v if lo(t) <= x <= hi(t))


def lit(v, t):
    """A C89 spelling of value v with type t (through a cast when there is no literal of that type)."""
    if t == "si": return "(-2147483647-1)" if v == -2147483648 else str(v) if v >= 0 else f"(-{-v})"
    if t == "ui": return f"{v}u"
    if t in ("sl", "ll"): return "(-9223372036854775807l-1)" if v == -(1 << 63) else f"{v}l" if v >= 0 else f"(-{-v}l)"
    if t in ("ul", "ull"): return f"{v}ul"
    return f"(({cname(t)}){v})" if v >= 0 else f"(({cname(t)})(-{-v}))"
