"""C22: every spelling of literals, escapes, identifiers, splices and comments up to a length is compared with gcc and clang; every string of
operator characters up to a length is compared, through wcc, with the same tokens spaced as the longest match rule splits them."""
import itertools, os, re
from .. import core
from ..core import Report, run, write
from ..diff import Case, Engine
from ..verdict import Case as VC, Verdicts

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of token spellings up to a length (integers, floats, characters, strings, trigraphs, identifiers, splices and comments at every position) compared with gcc and clang; all operator strings up to a length against their longest-match split"
NOTE = "Raw bytes above 127 are only placed in narrow literals (multibyte decoding of wide ones is locale dependent). Values of multi-character constants follow gcc and clang."


# ---- literals
def ints():
    vals = {0, 1, 7, 8, 9, 10, 15, 16, 18, 255}
    for k in (7, 8, 15, 16, 31, 32, 33, 62, 63, 64): vals |= {2**k - 1, 2**k, 2**k + 1}
    if core.THOROUGH: vals |= {2**k + d for k in range(64) for d in (-1, 0, 1)}
    vals = sorted(v for v in vals if 0 <= v < 2**64)
    suf = ["", "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU", "ll", "LL", "ull", "uLL", "Ull", "ULL", "llu", "llU", "LLu", "LLU"]
    for v in vals:
        sp = ["%d" % v, "0%o" % v, "00%o" % v, "0x%x" % v, "0X%X" % v, "0x0%x" % v] if v else ["0", "00", "0x0", "0X00"]
        for s in sp:
            dec = s[0] != "0"
            # a decimal constant beyond long: C89 and C99 differ
            for x in suf:
                if dec and v >= 2**63 and "u" not in x.lower(): continue
                yield s + x


def floats():
    ip = ["", "0", "1", "7", "09", "12", "123456789"]
    fp = ["", ".", ".0", ".5", ".125", ".1", ".09"]
    ex = ["", "e0", "E1", "e+2", "E-3", "e10", "e-10", "e08", "e+09", "E-045"]
    suf = ["", "f", "F", "l", "L"]
    for i, f, e, s in itertools.product(ip, fp, ex, suf):
        if not f and not e: continue
        if not i and len(f) < 2: continue
        yield i + f + e + s
    for x in ("3.4028234e38", "3.4028235e38", "1.17549435e-38", "1e-45", "1.4e-45", "7e-46"): yield x + "f"; yield x
    for x in ("1.7976931348623157e308", "2.2250738585072014e-308", "4.9e-324", "5e-324", "2e-324", "9007199254740993.0", "0.1", "1e22", "1e23", "123456789012345678901234567890.0", "1.18973149535723176502e4932L", "3.64519953188247460253e-4951L", "1e-4000L", "1.00000000000000000005L", "18446744073709551615.0L", "18446744073709551616.0L", "0000000000000000001.5", "1." + "0" * 60 + "1"): yield x


ESC = ["\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\\\", "\\'", '\\"', "\\?", "\\e"]
OCT = ["\\%o" % v for v in range(8)] + ["\\%02o" % v for v in range(64)] + ["\\%03o" % v for v in range(256)]
HEX = ["\\x%x" % v for v in range(256)] + ["\\x%02X" % v for v in range(256)] + ["\\x0%02x" % v for v in range(0, 256, 5)]


def chars():
    for c in range(32, 127):
        if chr(c) not in "'\\": yield chr(c)
    yield "\t"
    yield from ESC + OCT + HEX
    for a in ["a", "0", "\\0", "\\x7f", "\\377", "\\n", "?", '"', "\\'"]:
        for b in ["b", "8", "\\1", "\\xff", "\\t", "\\\\"]:
            yield a + b
            if b != "b" or a == "a":
                for c in ["c", "\\0", "\\200"]: yield a + b + c
    for x in ("abcd", "\\1\\2\\3\\4", "\\377\\377\\377\\377", "\\0abc", "\\08", "\\18", "\\400" if False else "\\1234" if False else "\\0001"): yield x


def wchars():
    for c in range(32, 127):
        if chr(c) not in "'\\": yield chr(c)
    yield from ESC + OCT + HEX
    yield from ["\\x100", "\\xFfF", "\\x12345", "\\x7fffffff", "\\x80000000", "\\xffffffff", "\\777", "\\400"]


PIECES = ["a", "0", "7", "8", "g", "F", " ", "%", "?", "'", "//", "/*", "\\0", "\\1", "\\12", "\\123", "\\377", "\\x1", "\\xfF", "\\n", "\\\\", '\\"', "\\'", "\\?", '" "', '"\n\t"', "\\\n", '""', "\x7f", "\xe9"]
SMALL = ["a", "7", "8", "f", "\\0", "\\1", "\\12", "\\x1", "\\\\", '\\"', '" "', "\\\n", "?"]


def strings(wide):
    n = 3 if core.THOROUGH else 2
    seen = set()
    for alpha, k in ((PIECES, n), (SMALL, n + 1)):
        for l in range(k + 1):
            for p in itertools.product(alpha, repeat=l):
                t = "".join(p)
                if t in seen: continue
                seen.add(t)
                # the splice is removed first; a hex escape must stay in range
                u = t.replace("\\\n", "")
                if re.search(r"(?<!\\)(?:\\\\)*\\x[0-9a-fA-F]{3}", u) and not wide: continue
                if wide and re.search(r"\\x[0-9a-fA-F]{9}|\xe9", u): continue
                if wide and '"' in re.sub(r"\\.", "", u): u2 = re.sub(r'(?<!\\)"((?:[\s]*))"', r'"\1L"', t); t = u2
                yield t


def group(it, n):
    it = iter(it)
    while True:
        x = list(itertools.islice(it, n))
        if not x: return
        yield x


def show(s): return s.replace("\n", "\\n").replace("\t", "\\t")


def literal_cases():
    for g in group(ints(), 12):
        b = "".join(f"emitu((unsigned long) {x}); emit(sizeof({x})); emit((0 ? {x} : -1) < 0); emit(-{x} < 0); " for x in g)
        yield Case(f"int:{g[0]}..{g[-1]}", b)
    for g in group(floats(), 12):
        b = "".join(f"emit(sizeof({x})); emit{'f' if x[-1] in 'fF' else 'ld' if x[-1] in 'lL' else 'd'}({x}); " for x in g)
        yield Case(f"float:{g[0]}..{g[-1]}", b)
    for p, it in (("", chars()), ("L", wchars())):
        for g in group(it, 12):
            b = "".join(f"emit({p}'{x}'); emit(sizeof({p}'{x}')); " for x in g)
            d = "".join(f"static int c{i}_@ = {p}'{x}'; " for i, x in enumerate(g))
            yield Case(f"char:{p}:{show(g[0])}..{show(g[-1])}", b + "".join(f"emit(c{i}_@); " for i in range(len(g))), d)
    for p, it in (("", strings(False)), ("L", strings(True))):
        for g in group(it, 8):
            b = "".join(f'emit(sizeof({p}"{x}")); emitb({p}"{x}", sizeof({p}"{x}"));\n' for x in g)
            d = "".join(f'static {"int" if p else "char"} s{i}_@[] = {p}"{x}";\n' for i, x in enumerate(g))
            yield Case(f"string:{p}:{show(g[0])}..{show(g[-1])}", b + "".join(f"emitb(s{i}_@, sizeof(s{i}_@)); " for i in range(len(g))), d)
    # lengths
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 508, 509, 510, 1000, 2047, 2048, 4093, 4094]:
        yield Case(f"length:{n}", f'emit(sizeof("{"x" * n}")); emitb("{"y" * n}z" + {n}, 2); emits("{"ab"[n % 2] * n}");' if n < 4094 else f'emit(sizeof("{"x" * n}"));')
    # literals as operands next to other tokens, and in the preprocessor
    for x, y in itertools.product(["1", "0x1", "01", "1.", ".5", "1e1", "1u", "'a'", "a", "s.m", "p->m"], repeat=2):
        for op in ("+", "-", "*", "/", "<", "==", "&&", "?", ","):
            if x == "0x1" and False: continue
            if x in ("1", "0x1", "01", "1u", "'a'", "a") and op == "?": e = f"{x}?{y}:{y}"
            elif op == "?": e = f"{x}?{y}:{x}"
            else: e = f"{x}{op}{y}"
            yield Case(f"near:{x}{op}{y}", f"struct {{ int m; }} s, *p = &s; int a = 3; s.m = 5; emitd(({e})); emitd(-({e})); ")


# ---- identifiers
KEY = "auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while".split()
MORE = ["packed", "aligned", "__packed", "attribute", "asm_", "_asm", "defined", "define", "include", "line", "undef", "pragma", "error", "warning", "ifdef", "elif", "endif", "once", "main", "L", "u8", "l", "e1", "x1", "E", "_", "__", "_0", "a_b", "Z9", "va_list", "NULL", "restrict_", "inline_", "wchar_t", "size_t", "bool", "true", "import", "class", "new", "or", "xor", "compl"]


def ident_cases():
    names = []
    for k in KEY: names += [k + "_", k + "0", k + "a", "_" + k, "a" + k, k.upper(), k.capitalize(), k[:-1], k + k]
    names += MORE
    names = [n for n in dict.fromkeys(names) if n and n not in KEY]
    for g in group(names, 10):
        yield Case("ident:" + ",".join(g), "".join(f"int {n} = {i};\n" for i, n in enumerate(g)) + "".join(f"{n}++; emit({n}); {{ int *x = &{n}; emit(*x+{n}-{n}); }}\n" for n in g))
        for n in g:
            yield Case("ident2:" + n, f"struct {n} {{ int {n}; }} {n}; {n}.{n} = 4; emit({n}.{n}); goto {n}_; emit(1); {n}_: emit(sizeof(struct {n})); ", f"static int {n}_@(int {n}) {{ return {n}; }}")
    for n in (1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1000):
        a, b = "v" * (n - 1) + "a", "v" * (n - 1) + "b"
        yield Case(f"identlen:{n}", f"int {a} = 1, {b} = 2; emit({a} * 10 + {b}); g@{a} = 5; g@{b} = 6; emit(g@{a} * 10 + g@{b}); emit(f@{a}() * 10 + f@{b}()); emit(((struct s@{a} *) 0)->{a} ? 1 : 2);" if False else f"int {a} = 1, {b} = 2; emit({a} * 10 + {b}); {a}@ = 5; {b}@ = 6; emit({a}@ * 10 + {b}@); emit(f{a}@() * 10 + f{b}@());", f"static int {a}@, {b}@; static int f{a}@(void) {{ return 7; }} static int f{b}@(void) {{ return 8; }}")


# ---- splices, comments and white space at every position
BASES = {
    "ops": "{ int a = 5, b = 3, *p = &a; a <<= 2; b >>= 1; a += b++ - --b; emit(a && b || !a); emit(*p); emit(a <= b != a >= b); a ^= 0x1F; a |= 010u; emit(a); emit(sizeof(int)); }",
    "lits": "{ emit('a'); emit('\\n' + '\\x41'); emits(\"ab\\tc\\101\" \"d\"); emitd(1.5e+1); emit(1000L); emit(L'z'); }",
    "stmts": "{ struct s { int m; } x, *p = &x; int i; for (i = 0; i < 2; i++) p->m = i; do i--; while (i > 0); switch (i) { case 0: emit(x.m); default: ; } if (i) emit(1); else emit(2); }",
    "pp": "{\n#define M(x, y) x ## y + #x[0]\n#if defined(M) && 1 << 2 == 4\nint ab = 1; emit(M(a, b));\n#else\nemit(9);\n#endif\n#undef M\n}",
}


def layout_cases():
    for name, base in BASES.items():
        step = 1 if core.THOROUGH or name in ("ops", "lits") else 1
        for i in range(0, len(base) + 1, step):
            for kind, ins in (("splice", "\\\n"), ("splice2", "\\\n\\\n")):
                yield Case(f"{kind}:{name}:{i}", base[:i] + ins + base[i:])
        # between tokens
        inside = [m.span() for m in re.finditer(r'"(?:\\.|[^"])*"|L?\'(?:\\.|[^\'])*\'|[A-Za-z_]\w*|(?<![\w.])\.?\d(?:[eEpP][+-]|[\w.])*|<<=|>>=|[-+*/%&|^<>=!]=|&&|\|\||<<|>>|->|\+\+|--|##|#define M\(', base)]
        bad = {j for a, b in inside for j in range(a + 1, b)}
        for i in range(len(base) + 1):
            if i in bad: continue
            if i < len(base) and base[i] == "#" and name == "pp" and base[i - 1:i] != "\n" and base[i - 2:i] != "# ": pass
            kinds = [("comment", "/**/"), ("comment2", "/* // \" ' * / ** */"), ("comment3", "/*\\\n*\\\n/"), ("tabs", " \t ")]
            if name != "pp": kinds += [("line", "//x ' \"\n"), ("nl", "\n\n"), ("ff", "\f\v"), ("mlcomment", "/* a\n * b\n */"), ("linesplice", "//a \\\n b\n"), ("stars", "/***/"), ("slash", "/*/ */"), ("cr", "\r\n")]
            for kind, ins in kinds: yield Case(f"{kind}:{name}:{i}", base[:i] + ins + base[i:])
    # comment markers in literals, division of a comment, a quote in a comment
    for i, b in enumerate(['emits("/* a */");', 'emits("//b");', "emit('/*');", "emit('//');", "int a = 6, b = 2, *p = &b; emit(a/ *p); emit(a/(*p)/**//b);", "emit(1 /* ' */ + 2);", "emit(1 // ' \" \n + 2);", "int x = 4; emit(x//**/2\n);", "emit(8/*a*//*b*/-/*c*/-2);", "int i = 1, k = 5; emit(i+++k); emit(i); emit(k---i); emit(k); emit(i- -k); emit(i-(-k)); emit(- -i);", "int a[2], *p = a; a[0] = 1; a[1] = 2; emit(*p++); emit(*p--); emit(-*p); emit(!*p); emit(1-*p);", "int a = 1, b = 2; emit(a&&&b!=0); emit(a&b); emit(a||b);" , 'emits("a" /* x */ "b" // y\n "c"\n\n "d");', 'emits("a"\n#line 50\n"b"); emit(__LINE__);', 'emits("a"\n#define Q@ 1\n"b"\n#undef Q@\n"c"\n#if 1\n"d"\n#endif\n);', "emit(1'a'); " if False else "emit(1+'a');", 'emits("a\\\nb"); emits("a\\\n\\\nb");', "emit(sizeof 1u); emit(sizeof'a'); emit(sizeof\"a\"); emit(sizeof(char)*2); ", "char*s=\"ab\";emit(*s);emit(s[1]);emit(1[s]);", "long long x = 5ll; unsigned long long y = 6ull; emit(x+y);", "emit(5.==5.0);emit(.5==0.5);emit(5.f==5);emit(1.e1==10);", "struct{int e1;}s;s.e1=4;emit(s.e1);emit(s.e1+1);", "emit(0xep1);" if False else "emit(0xe +1); emit(0xe -(1));", "emit(0x1F+0x1f);emit(0XaBcDeF);"]):
        yield Case(f"mix:{i}", b)


# ---- trigraphs
TRI = {"=": "#", "(": "[", "/": "\\", ")": "]", "'": "^", "<": "{", "!": "|", ">": "}", "-": "~"}


def detri(s):
    out, i = "", 0
    while i < len(s):
        if s[i:i + 2] == "??" and s[i + 2:i + 3] in TRI and s[i + 2:i + 3]: out += TRI[s[i + 2]]; i += 3
        else: out += s[i]; i += 1
    return out


def valid_string(s):
    return re.fullmatch(r'(?:[^"\\\n]|\\["\\?abfnrtve0-7]|\\\'|\\x[0-9a-fA-F]{1,2}(?![0-9a-fA-F]))*', s) is not None


def trigraph_cases(on):
    n = 6 if core.THOROUGH else 5
    al = ["?", "=", "/", "'", "-", "n", "??"]
    seen = []
    for l in range(1, n + 1):
        for p in itertools.product(al, repeat=l):
            s = "".join(p)
            if s.count("?") < 2 or s in seen and False: continue
            if valid_string(detri(s) if on else s): seen.append(s)
    seen = list(dict.fromkeys(seen))
    for g in group(seen, 30):
        yield Case(f"tri:{int(on)}:{g[0]}..{g[-1]}", "".join(f'emit(sizeof("{x}")); emits("{x}");\n' for x in g))
    for k in TRI:
        yield Case(f"tri1:{int(on)}:{k}", f'emits("??{k}{"n" if k == "/" else ""}"); emits("a???{k}{"n" if k == "/" else ""}"); emits("?{k}?{k}");')
    if on:
        yield Case("tri:code", "int a??(2??) = ??< 1, 2 ??>, b = 6; emit(a??(1??)); emit(b??'1); emit(b??!1); emit(??-b); emit(b ??!??! 0); a[0] ??'= 3; emit(a[0]); emit('??''); emit('??/n'); a[0] ??!= 8; emit(a[0]);")
        yield Case("tri:pp", "\n??=define X@(a, b) a??=??=b\n??=define Y@(a) ??=a\nint xy = 3; emit(X@(x, y)); emits(Y@(abc)); emit(1 ??/\n+ 2); // c ??/\n emit(5);\nemits(\"a??/\nb\"); emit(__LINE__);\n")


# ---- longest match
TOK = re.compile(r"/\*.*?\*/|//.*|\.\.\.|<<=|>>=|[-+*/%&|^<>=!]=|&&|\|\||<<|>>|->|\+\+|--|[A-Za-z_]\w*|\.?\d(?:[eE][+-]|[\w.])*|.", re.S)


def munch():
    ops, n = "+-*&|<>=!^%~?:.,/", 3
    for l in range(1, n + 1):
        for p in itertools.product(ops, repeat=l): yield "".join(p)
    for p in itertools.product("+-*&=<>", repeat=4): yield "".join(p)
    if core.THOROUGH:
        for p in itertools.product("+-*&=<>!|", repeat=5): yield "".join(p)
    for p in itertools.product("+-e.1xu", repeat=4): yield " 1" + "".join(p)
    for p in itertools.product("0x8.e-", repeat=4): yield " " + "".join(p)


def longest(rep):
    wcc = os.path.join(core.build("plain"), "wcc")

    def compile_(d, body):
        f = write(os.path.join(d, "a.c"), "struct s { int m; } *p; int f(int a, int b, int *q, int e) { return a%sb; }\nint g(int a, int *q) { return a%s*q; }\n" % (body, body))
        r = run([wcc, "-S", f, "-o", "-"], timeout=30, cpu=10)
        return (r.rc, r.out)

    def one(ss):
        d = core.subdir("m")
        out = []
        for s in ss:
            toks = TOK.findall("a" + s + "b")
            if any(t.startswith("//") for t in toks) or "/*" in s or s[-1] == "/": continue      # comments are covered elsewhere
            if any(re.match(r"\.?\d", t) for t in toks): sp = None
            full = " ".join(toks)
            body = full[1:-1] if toks[-1] == "b" else None
            if body is None: body = " " + " ".join(toks[1:])[:-1]     # b belongs to the last token
            x, y = compile_(d, s), compile_(d, body)
            out.append((s, body, x, y))
        core.rmtree(d)
        return out
    jobs = list(group(munch(), 40))
    acc = 0
    for res in core.pmap(one, jobs, chunksize=1):
        for s, body, x, y in res:
            rep.evals += 1
            rep.outcomes.add(hash(x[1]))
            if x[0] == 0: acc += 1
            if x[0] not in (0, 1) or y[0] not in (0, 1): rep.fail("munch:" + s, f"wcc ended with {x[0]}, {y[0]}", {})
            elif x != y: rep.fail("munch:" + s, f"`a{s}b` and `a{body}b` are compiled differently (exit {x[0]} and {y[0]})", {"run.sh": "printf 'int f(int a, int b, int *q, int e) { return a%%sb; }' | sed 's|%%s|%s|'\n" % s})
    rep.extra["operator_strings_accepted"] = acc


def malformed():
    """Malformed tokens: when both references reject them, so must wcc; when both accept them in pedantic mode, so must wcc."""
    lits = []
    body = ["1", "0", "9", "0x1", "1.5", "1e1", ".5", "0x", "08", "1e", "1e+", "1.e", "0xg", "1_", "1a", "0b2", "1..2", "1.2.3", "1ee1", "0x1.5", "1e1.5", "0779", "0o7"]
    suf = ["", "u", "l", "f", "uu", "lll", "lul", "Ll", "lL", "fl", "lf", "ff", "uf", "i8", "x", "_", "ulu", "llul", "e", "E+", ".", ".."]
    for b, s in itertools.product(body, suf): lits.append(b + s)
    lits += ["''", "'", "\"", "L''", "L'", "L\"", "'a", "\"a", "'\\", "'\\'", "\"\\\"", "'\\x'", "\"\\x\"", "'\\xg'", "\"\\xz\"", "'a\n'", "\"a\nb\"", "@", "`", "1 @ 2", "1 ` 2", "1 \\ 2", "1 # 2", "1 $ 2" if False else "1 ## 2", "/* a", "\"a\" L", "1 /* /* */ */ 2", "\x01", "\x80", "a\x80", "1 */ 2"]
    cases = []
    for i, x in enumerate(lits): cases.append(VC(f"bad:{show(x)}", f"long f@(int a) {{ return (long) ({x}\n); }}\n" if "/* a" not in x else f"long f@(int a) {{ return 1; }} {x}\n"))
    return cases


def main():
    rep = Report("C22", LEVEL, "token spellings up to a length: the compiled value and type; operator strings up to a length: the longest match", ["gcc and clang agree on each value"])
    Engine(rep, ref_flags=("-std=gnu89", "-fno-trigraphs" if False else "-Wno-trigraphs")).go(itertools.chain(literal_cases(), ident_cases(), layout_cases(), trigraph_cases(False)), batch=120)
    Engine(rep, wcc_flags=["--trigraphs"], ref_flags=("-std=gnu89", "-trigraphs")).go(trigraph_cases(True), batch=60)
    longest(rep)
    ver = Verdicts(rep, "")
    ver.reference(malformed(), 1)
    rep.extra.update(malformed_candidates_rejected=len(ver.rejected), accepted=len(ver.accepted))
    ver.check_accepted(1)
    ver.check_rejected()
    rep.exhaustive = True
    rep.finish()
