"""C23: no input makes the compiler crash, hang or corrupt memory: the AddressSanitizer build over all short token sequences in every syntactic context, all single edits of
valid programs, all lengths of a ladder for everything that has a length, and the programs of the other checks."""
import itertools, os, re, struct
from .. import core, corpus
from ..core import Report, read, run, write

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of inputs within bounds (token sequences x contexts, single-token and single-byte edits and truncations of valid programs, length and depth ladders, the other checks' programs), each executed by the real compiler built with AddressSanitizer and judged by exit status, signals, time and diagnostics"
NOTE = "Nesting is bounded by 200 levels: the recursive parser's stack is finite for every implementation. Reading uninitialised memory is C27's subject."

PRO = "typedef int td; struct s { int m; char c[3]; struct s *n; unsigned b : 3; double d; }; union u { int i; double d; }; enum en { E1, E2 = 7 }; int gi, *gp, ga[4]; struct s gs, *gsp; double gd; long double gl; int fn(int, ...); void vf(void); struct s fs(struct s);\n"
CTX = {
    "file": ("", ""), "decl": ("int ", ";"), "list": ("int a, ", ";"), "fun": ("int f(int a, char *p, td t) { int b; ", " }"), "expr": ("int f(int a, char *p, double d) { int b; b = ", "; return b; }"), "stmt2": ("int f(int a) { ", "; a = 1; return a; }"), "void": ("void f(int a, char *p) { ", " a; }"),
    "after": ("void f(int a, struct s v, char *p) { a ", "; }"), "afterp": ("void f(int a, struct s *v, char *p) { v ", "; }"), "afters": ("int f(struct s v) { v ", "; }"), "cond": ("int f(int a) { if (", ") a = 1; else a = 2; return a; }"), "for": ("int f(int a) { for (", ") a++; return a; }"), "member": ("struct t { ", " };"), "member2": ("struct t { int a; ", " b; } v; int k = sizeof(v);"), "enum": ("enum e { ", " };"), "enumv": ("enum e { A = ", ", B };"),
    "init": ("int v[3] = ", ";"), "sinit": ("struct s v = { 1, ", " };"), "linit": ("int f(int a) { struct s v = { ", " }; int w[] = { 1, a }; return w[1]; }"), "size": ("int v[", "];"), "param": ("int f(", ");"), "pdef": ("int f(", ") { return 0; }"), "knr": ("int f(a, b) ", " { return a; }"), "switch": ("int f(int a) { switch (a) { case 1: ", " } return 2; }"), "case": ("int f(int a) { switch (a) { case ", ": return 1; default: ; } return 2; }"),
    "args": ("int f(int a, double d) { return fn(", "); }"), "static": ("int f(void) { static int k = ", "; return k; }"), "sizeof": ("int f(int a) { return sizeof(", "); }"), "cast": ("int f(int a) { return (", ") a; }"), "typedef": ("typedef ", ";"), "bits": ("struct t { int a : ", "; };"), "abstract": ("int k = sizeof(int ", ");"), "index": ("int f(int a, int *p) { return p[", "]; }"), "ternary": ("int f(int a) { return a ? ", " : 3; }"),
    "label": ("int f(int a) { l", " goto l; }"), "local": ("int f(int a) { td ", "; { struct s x; } return 1; }"), "return": ("struct s f(struct s a) { return ", "; }"), "addr": ("int *f(int a) { return &", "; }"), "deref": ("int f(int *a) { return *", "; }"), "tag": ("struct ", " v;"), "utag": ("union ", ";"), "etag": ("enum ", " v;"), "do": ("int f(int a) { do ", " while (a); }"), "while": ("int f(int a) { while (a) ", " }"),
    "if": ("#if ", "\nint a;\n#else\nint b;\n#endif\n"), "elif": ("#if 0\n#elif ", "\nint a;\n#endif\n"), "define": ("#define ", "\nint a;\n"), "dbody": ("#define M ", "\nint a = M;\n"), "dparam": ("#define M(", ") 1\nint a = M(1);\nint b = M(1, 2);\n"), "fbody": ("#define M(x, y) ", "\nint a = M(1, 2);\nint b = M(, 2);\n"), "margs": ("#define M(x, y) x #y x##y\nM(", ")\nint a;\n"), "minv": ("#define M(x) x + x\n#define N M\nint a = M ", ";\n"), "hash": ("#", "\nint a;\n"), "line": ("#line ", "\nint a;\n"), "include": ("#include ", "\nint a;\n"), "undef": ("#undef ", "\nint a;\n"), "ifdef": ("#ifdef ", "\nint a;\n#endif\n"),
    "skip": ("#if 0\n# ", "\n#endif\nint a;\n"), "error": ("#warning ", "\nint a;\n"), "nested": ("#if 1\n#", "\n#else\n#endif\nint a;\n"), "paste": ("#define P(a, b) a ", " b\nint P(x, y);\n"),
}
KEYWORDS = "auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while inline restrict".split()
PUNCT = "( ) [ ] { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... = *= /= %= += -= <<= >>= &= ^= |= , # ##".split()
OTHER = ["td", "gi", "gp", "ga", "gs", "gsp", "gd", "gl", "fn", "vf", "fs", "zz", "a", "s", "E1", "0", "1", "-1", "1.5", "2.0f", "3.5L", "7UL", "'c'", '"s"', 'L"w"', "defined", "__attribute__", "__LINE__", "__VA_ARGS__", "__builtin_va_start", "\n", "\\\n", "@", "1e", "0x", "'", '"', "/*", "//", "M", "x", "<stdio.h>"]
ALL = KEYWORDS + PUNCT + OTHER
SOME = ["int", "struct", "static", "typedef", "sizeof", "return", "case", "(", ")", "[", "{", "}", "->", ".", "*", "&", "-", "?", ":", ";", "=", ",", "...", "#", "##", "td", "gi", "gs", "fn", "zz", "1", "1.5", '"s"', "\n", "x"]
MID = SOME + ["unsigned", "enum", "else", "for", "do", "goto", "const", "]", "++", "!", "/", "<<", "==", "&&", "+=", "gp", "gd", "gl", "ga", "vf", "E1", "a", "s", "0", "'c'"]
FEW = ["int", "struct", "(", ")", "[", "{", "}", "*", ";", "=", ",", "gi", "1"]
EDIT = ["", "int", "(", ")", "}", ";", ",", "*", "=", "zz", "0", "#"]
QUICK = ["int", "struct", "sizeof", "case", "(", ")", "[", "{", "}", ".", "*", "&", ":", ";", "=", ",", "#", "##", "td", "gs", "zz", "1", '"s"', "\n"]

BASES = {
    "decls": 'typedef struct t { int a, *b; union { char c; long d; } u; unsigned e : 3, : 2, f : 4; } T; enum e { A, B = 3 } ev; extern int x[]; static const char *s[] = { "a", "b" "c" }; int (*fp)(int, ...), *(*g(void))[3]; T v = { 1, 0, { 2 }, 3 }; int m[2][3] = { { 1 }, { 2, 3 } };',
    "stmts": "int f(int n, char *p) { int i, k = 0; static int z = 3; for (i = 0; i < n; i++) { if (i == 3) continue; else if (p[i]) break; k += i; } while (k > 2) k--; do { k++; } while (k < 5); switch (n) { case 1: return k; case 2: k = 3; default: goto end; } end: return k; }",
    "exprs": "double f(int a, long *p, struct s { int x; struct s *n; } *q, double d) { unsigned u = a + 1 * 2; a = u >> 3 & 7 | ~a ^ p[2]; *p++ = q->n->x--; a += sizeof(int *) + sizeof a; d = a ? d / 2 : (double) !a; return (a, -d) + (a && d || p != &p[1]); }",
    "calls": 'struct s { long a, b, c; double d; }; int printf(char *, ...); struct s mk(struct s v, float f, long double l); int f(struct s *p) { struct s w = mk(*p, 1.5f, 2.5L), y; int (*h)(char *, ...) = printf; y = w; h("%d %s\\n", y.a, "x"); return (*h)("", mk(w, 1, 2).d); }',
    "macros": '#define ONE 1\n#define SQ(x) ((x) * (x))\n#define CAT(a, b) a ## b\n#define STR(a) #a\n#define R SQ(R)\nint CAT(v, ar) = SQ(ONE + 2);\nchar *s = STR(a "b" \\n);\n#undef ONE\n#ifndef ONE\nint a;\n#elif defined(X) && X > 2\nint b;\n#else\nint c;\n#endif\n#line 40 "x.c"\nint d = __LINE__;\n',
    "vararg": "typedef struct { unsigned g, f; void *o, *r; } va_t[1]; int f(int n, ...) { va_t ap; int k; __builtin_va_start(ap, n); k = __builtin_va_arg(ap, int); return k; }",
    "inits": "struct in { short a[2]; char c; }; struct out { struct in i[2]; char *s; double d; } o = { { { { 1, 2 }, 'x' }, { { 3 } } }, \"s\", 1.5 }; int f(void) { struct out l = { 1, 2, 'c' }; char t[] = \"abc\", u[2] = { 1 }; static int *q = &((int *) 8)[2]; return l.i[0].a[1] + t[1] + u[0]; }",
    "consts": "int a = 1 + 2 * 3 % 4 - (5 << 1) / 2, b = ~0 ^ 1 | 2 & 3, c = 1 ? 2 : 3, d = 'a' + '\\x41' + '\\101', e = 1 < 2 && 3 >= 4 || !5; double f = 1.5e3 + .5f - 1.L; unsigned long g = 0xffffffffffffffffUL, h = 0777; int w = L'x', arr[sizeof(int) * 2];",
    "floats": "float f(float a, double b, long double c, int i, unsigned long u) { a = b + c * i; b = a < b ? u : -c; i = a; u = c; c += a == b; if (!c) return i / a; return a++ > b-- ? (float) c : (int) b; }",
    "knr": "int old(a, b) int a; char *b; { return a + *b; } inline static int t(register int a, volatile int *b, const struct s *c) { { int a = *b; { extern int old(); return old(a); } } } struct s { int x; };",
}
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\.?\d[\w.]*|[A-Za-z_]\w*|<<=|>>=|\.\.\.|->|\+\+|--|&&|\|\||##|[-+*/%&|^<>=!]=|<<|>>|\n|\S')
BYTES = [0, 1, 0x0a, 0x22, 0x27, 0x28, 0x2a, 0x2f, 0x5c, 0x23, 0x30, 0x7b, 0x80, 0xff]


def seqs(full):
    for c, (a, b) in CTX.items():
        pp = a.startswith("#")
        mk = lambda t: (a + " ".join(t) + b if pp else PRO + a + " ".join(t) + b + "\n")
        yield f"seq:{c}:", mk(())
        for t in ALL: yield f"seq:{c}:{t}", mk((t,))
        for t in itertools.product(MID if full else QUICK, repeat=2):
            yield f"seq:{c}:{' '.join(t)}", mk(t)
        if full:
            for t in itertools.product(FEW, repeat=3): yield f"seq:{c}:{' '.join(t)}", mk(t)


def cut(full):
    """Unfinished input: every context broken off after each short sequence."""
    for c, (a, b) in CTX.items():
        for t in [()] + [(t,) for t in (ALL if full else SOME)] + (list(itertools.product(QUICK, repeat=2)) if full else []):
            for e in ("", "\n") if full or not t else ("",): yield f"cut:{c}:{' '.join(t)}:{len(e)}", PRO + a + " ".join(t) + e


def edits(full):
    for n, text in BASES.items():
        toks = TOK.findall(text)
        j = lambda l: " ".join(l).replace("# ", "#").replace(" (", "(" if n == "macros" else " (") + "\n"
        yield f"edit:{n}:none", j(toks)
        alpha = SOME + [""] if full else EDIT
        for i in range(len(toks)):
            yield f"edit:{n}:{i}:end", j(toks[:i])
            yield f"edit:{n}:{i}:from", j(toks[i:])
            yield f"edit:{n}:{i}:twice", j(toks[:i + 1] + toks[i:])
            if i + 1 < len(toks):
                yield f"edit:{n}:{i}:swap", j(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:])
                yield f"edit:{n}:{i}:drop2", j(toks[:i] + toks[i + 2:])
            for t in alpha:
                yield f"edit:{n}:{i}:becomes:{t}", j(toks[:i] + ([t] if t else []) + toks[i + 1:])
                if t: yield f"edit:{n}:{i}:before:{t}", j(toks[:i] + [t] + toks[i:])
        raw = text.encode()
        for i in range(len(raw) + 1):
            yield f"byte:{n}:{i}:end", raw[:i]
            if i == len(raw): continue
            for b in BYTES if full else (0, 0x22, 0x5c, 0xff): yield f"byte:{n}:{i}:{b:#x}", raw[:i] + bytes([b]) + raw[i + 1:]
            if full or i % 3 == 0: yield f"byte:{n}:{i}:drop", raw[:i] + raw[i + 1:]


def pairs(full):
    """Pairs of operand types for every operator and statement that takes an expression: well formed or not."""
    objs = {"i": "gi", "p": "gp", "arr": "ga", "st": "gs", "sp": "gsp", "un": "gu", "d": "gd", "ld": "gl", "f": "fn", "v": "vf()", "sf": "fs(gs)", "bf": "gs.b", "k": "3", "kd": "1.5", "kl": "2.5L", "z": "0", "str": '"s"', "ty": "td", "en": "E1", "vp": "gvp", "pp": "gpp", "mat": "gm", "inc": "*gip", "fpv": "gfp", "c": "gc", "zz": "zz", "nul": "(void *) 0", "vd": "(void) 0", "wc": "L'x'", "ml": "gsp->n->m"}
    pro = PRO + "union u gu; struct inc *gip; void *gvp; int **gpp, gm[2][3]; int (*gfp)(int, ...); char gc;\n"
    un = ["+{}", "-{}", "~{}", "!{}", "&{}", "*{}", "++{}", "{}--", "sizeof {}", "sizeof({})", "({}).m", "({})->m", "({})[1]", "({})()", "({})(1, 2)", "(int) {}", "(char *) {}", "(double) {}", "(void) {}", "(struct s) {}", "(union u) {}", "(long double) {}", "(td[3]) {}", "&({})[1]", "&({}).m", "&({})->c[1]", "*&{}", "&*{}", "({}) ? 1 : 2", "!!{}", "- -{}", "**{}", "({}).zz", "({})->zz", "1[{}]", "({}).c[1]", "__builtin_va_arg({}, int)", "fs({})", "fn({})", "vf({})", "{} = {}"]
    st = ["{};", "if ({}) ;", "while ({}) break;", "switch ({}) {{ case 1: ; }}", "return {};", "for ({}; {}; {}) break;", "do ; while ({});", "{{ int x = {}; }}", "{{ struct s x = {}; }}", "{{ struct s x = {{ {} }}; }}", "{{ int x[2] = {{ {} }}; }}", "{{ char x[3] = {}; }}", "{{ static int x = {}; }}", "{{ static struct s x = {{ {} }}; }}", "{{ static char *x = {}; }}", "{{ static double x = {}; }}", "switch (1) {{ case {}: ; }}", "{{ int x[{}]; }}", "{{ struct {{ int x : {}; }} y; }}", "{{ enum {{ X = {} }} y; }}", "{{ long double x = {}; }}", "goto {};", "{{ union u x = {}; }}", "{{ static long double x[2] = {{ {} }}; }}"]
    for k, o in objs.items():
        for u in un:
            e = u.format(o, o)
            yield f"un:{u}:{k}", pro + f"int f(void) {{ {e}; }}\nint g(void) {{ int x = {e}; return x; }}\n".replace("{{", "{").replace("}}", "}")
            yield f"sun:{u}:{k}", pro + f"long x = {e}; void *y[] = {{ {e} }};\n"
        for s in st: yield f"st:{s}:{k}", pro + "int f(void) { " + s.format(o, o, o) + " }\n"
    ops = ["+", "-", "*", "/", "%", "<<", ">>", "<", ">=", "==", "!=", "&", "|", "^", "&&", "||", ",", "=", "+=", "-=", "*=", "/=", "%=", "<<=", "&=", "? 1 :", "[", "("]
    some = list(objs) if full else ["i", "p", "arr", "st", "un", "ld", "f", "v", "bf", "k", "kd", "str", "ty", "inc"]
    for op in ops:
        for (a, b) in itertools.product(some, repeat=2):
            end = {"[": "]", "(": ")"}.get(op, "")
            e = f"{objs[a]} {op} {objs[b]}{end}"
            yield f"bin:{a} {op} {b}", pro + f"int f(void) {{ int x; {e}; x = {e}; if ({e}) return 1; return {e}; }}\n"
            yield f"sbin:{a} {op} {b}", pro + f"long x = {e};\n"
            yield f"pbin:{a} {op} {b}", pro + f"int f(void) {{ return *({e}); }} int x[{e}];\n"
    for (a, b) in itertools.product(some, repeat=2):
        yield f"tern:{a}:{b}", pro + f"int f(int k) {{ k ? {objs[a]} : {objs[b]}; return (k ? {objs[a]} : {objs[b]}) == 1; }}\n"
        yield f"ret:{a}:{b}", pro + f"int f(int k) {{ if (k) return {objs[a]}; return {objs[b]}; }} struct s g(void) {{ return {objs[a]}; }} void h(void) {{ return {objs[b]}; }}\n"
        yield f"call:{a}:{b}", pro + f"int f(void) {{ fs({objs[a]}); fn({objs[a]}, {objs[b]}); vf({objs[b]}); {objs[a]}({objs[b]}); }}\n"


def sizes(top): return sorted({n for k in range(0, 18) for n in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {10000 if top > 10000 else 3} | {255, 256, 1000 if top >= 1000 else 3}, key=int)


def ladders(full):
    """Everything that has a length."""
    L = {       # lengths
        "var": lambda n: f"int {'v' * n}; int g(void) {{ return {'v' * n}++; }}", "fun": lambda n: f"int {'f' * n}(int a) {{ return a; }} int g(void) {{ return {'f' * n}(1); }}", "lvar": lambda n: f"int g(void) {{ int {'v' * n} = 1; return {'v' * n}; }}", "lstatic": lambda n: f"int g(void) {{ static int {'v' * n} = 1; return {'v' * n}; }}", "sfun": lambda n: f"static int {'f' * n}(int a) {{ static int k; return a + k++; }} int g(void) {{ return {'f' * n}(1); }}",
        "tag": lambda n: f"struct {'s' * n} {{ int a; }} v; int g(void) {{ return sizeof(struct {'s' * n}); }}", "member": lambda n: f"struct s {{ int {'m' * n}; }} v; int g(void) {{ return v.{'m' * n}; }}", "typedef": lambda n: f"typedef int {'t' * n}; {'t' * n} v;", "enum": lambda n: f"enum {'e' * n} {{ {'E' * n} }}; int v = {'E' * n};", "label": lambda n: f"int g(int a) {{ {'l' * n}: if (a--) goto {'l' * n}; return 1; }}", "nolabel": lambda n: f"int g(int a) {{ goto {'l' * n}; return 1; }}", "param": lambda n: f"int g(int {'p' * n}) {{ return {'p' * n}; }}", "undecl": lambda n: f"int g(void) {{ return {'u' * n}; }}", "undef-fn": lambda n: f"int g(void) {{ return {'u' * n}(1); }}", "badmember": lambda n: f"struct s {{ int a; }} v; int g(void) {{ return v.{'m' * n}; }}", "badtag": lambda n: f"struct {'s' * n} v; int k = sizeof v;",
        "redef": lambda n: f"int {'v' * n}; double {'v' * n};", "badtype": lambda n: f"{'t' * n} v;",
        "string": lambda n: f"char *s = \"{'x' * n}\";", "escapes": lambda n: "char *s = \"" + "\\n\\x01\\\"" * n + "\";", "wstring": lambda n: f"int *s = L\"{'x' * n}\";", "lstring": lambda n: f"int g(void) {{ char s[] = \"{'x' * n}\"; return s[0]; }}", "astring": lambda n: f"char s[{n}] = \"{'x' * n}\"; char t[] = \"{'x' * n}\";", "wastring": lambda n: f"int s[] = L\"{'x' * n}\"; int g(void) {{ int s[] = L\"{'x' * n}\"; return s[0]; }}", "charc": lambda n: f"int c = '{'x' * n}';", "unstring": lambda n: f"char *s = \"{'x' * n}", "uncharc": lambda n: f"int c = '{'x' * n}", "octal": lambda n: "char *s = \"\\" + "1" * n + "\"; ", "hexesc": lambda n: "char *s = \"\\x" + "1" * n + "\"; ",
        "dec": lambda n: f"unsigned long c = {'1' * n};", "hex": lambda n: f"unsigned long c = 0x{'f' * n};", "oct": lambda n: f"unsigned long c = 0{'7' * n};", "float": lambda n: f"double c = {'1' * n}.{'5' * n};", "exp": lambda n: f"double c = 1e{'1' * n};", "suffix": lambda n: f"int c = 1{'U' * n};", "ppnum": lambda n: f"int c = 1{'.e+' * n};", "ldouble": lambda n: f"long double c = {'1' * n}.{'5' * n}L;",
        "macro": lambda n: f"#define {'M' * n} 1\nint v = {'M' * n};\n#ifdef {'M' * n}\nint w;\n#endif\n#undef {'M' * n}\n", "mparam": lambda n: f"#define M({'p' * n}) {'p' * n} + #{'p' * n}[0]\nint f(void) {{ return M(1); }}\n", "mbody": lambda n: f"#define M {'1 + ' * n} 1\nint v = M;\n" if n < 5000 else "int a;\n", "marg": lambda n: f"#define M(a) (#a)[1] + sizeof(#a)\nint f(void) {{ return M({'x' * n}); }}\n", "paste": lambda n: f"#define P(a, b) a ## b\nint P({'x' * n}, {'y' * n}) = 1;\n", "directive": lambda n: f"#{'d' * n}\n", "error": lambda n: f"#error {'d' * n}\n", "warning": lambda n: f"#warning {'d' * n}\nint a;\n", "line": lambda n: f"#line 3 \"{'f' * n}\"\nint v = zz;\n", "lineg": lambda n: f"#line 3 \"{'f' * n}\"\nint g(void) {{ return __LINE__ + sizeof(__FILE__); }}\n", "linenum": lambda n: f"#line {'1' * n}\nint v = __LINE__;\n", "include": lambda n: f"#include \"{'i' * n}\"\n", "includes": lambda n: f"#include <{'i' * n}>\n", "includem": lambda n: f"#define I \"{'i' * n}\"\n#include I\n",
        "comment": lambda n: f"/*{'c' * n}*/ int a; //{'c' * n}\n", "blank": lambda n: " " * n + "int" + "\t" * n + "a;" + "\n" * n, "splice": lambda n: "int" + "\\\n" * n + " a;", "ifnum": lambda n: f"#if {'1' * n}\nint a;\n#endif\n", "ifid": lambda n: f"#if {'u' * n} || defined({'u' * n})\n#else\nint a;\n#endif\n", "pragma": lambda n: f"#pragma {'p' * n}\nint a;\n", "stringize": lambda n: "#define S(a) #a\nchar *s = S(\"" + "\\\\\\\"" * n + "\");\n", "arrsize": lambda n: f"char big[{n}]; int g(int i) {{ char a[{n}]; a[0] = i; return a[i]; }}",
        "offset": lambda n: f"struct s {{ char a[{n}]; int b; }} v; int g(struct s *p) {{ return p->b + v.b; }}",
    }
    C = {       # counts
        "globals": lambda n: "".join(f"int v{i};" for i in range(n)), "declarators": lambda n: "int " + ", ".join(f"v{i}" for i in range(n)) + ";", "locals": lambda n: "int g(void) {" + "".join(f"int v{i} = {i};" for i in range(n)) + " return v0" + "".join(f"+v{i}" for i in range(1, n)) + "; }", "params": lambda n: "int g(" + ", ".join(f"int p{i}" for i in range(n)) + f") {{ return p{n - 1}; }} int h(void) {{ return g(" + ", ".join("1" for i in range(n)) + "); }", "fparams": lambda n: "double g(" + ", ".join(f"double p{i}" for i in range(n)) + f") {{ return p{n - 1}; }}", "args": lambda n: "int h(); int g(int a) { return h(" + ", ".join("a" for i in range(n)) + "); }", "sargs": lambda n: "struct s { int a[5]; } v; int h(); int g(int a) { return h(" + ", ".join("v" for i in range(n)) + "); }",
        "members": lambda n: "struct s {" + "".join(f"int m{i};" for i in range(n)) + f"}} v; int g(void) {{ return v.m{n - 1}; }}", "bits": lambda n: "struct s {" + "".join(f"unsigned m{i} : {i % 31 + 1};" for i in range(n)) + f"}} v; int g(void) {{ return v.m{n - 1}++; }}", "enums": lambda n: "enum e {" + ", ".join(f"E{i}" for i in range(n)) + f"}}; int v = E{n - 1};", "cases": lambda n: "int g(int a) { switch (a) {" + "".join(f"case {i}: a += {i};" for i in range(n)) + "} return a; }", "labels": lambda n: "int g(int a) {" + "".join(f"l{i}: a++;" for i in range(n)) + f" if (a < 100) goto l{n - 1}; return a; }}", "gotos": lambda n: "int g(int a) {" + "".join(f"if (a == {i}) goto l; " for i in range(n)) + "l: return a; }", "stmts": lambda n: "int g(int a) {" + "a += 3;" * n + " return a; }", "functions": lambda n: "".join(f"int f{i}(int a) {{ return a + {i}; }}" for i in range(n)),
        "elements": lambda n: "int v[] = {" + ", ".join(str(i) for i in range(n)) + "};", "lelements": lambda n: "int g(void) { int v[] = {" + ", ".join(str(i) for i in range(n)) + "}; return v[0]; }", "excess": lambda n: "int v[1] = {" + ", ".join(str(i) for i in range(n)) + "};", "strings": lambda n: "char *v[] = {" + ", ".join(f'"s{i}"' for i in range(n)) + "};", "concat": lambda n: "char *v = " + " ".join(f'"s{i}"' for i in range(n)) + ";", "statics": lambda n: "int g(void) {" + "".join(f"static int v{i};" for i in range(n)) + "return 1; }", "tags": lambda n: "".join(f"struct s{i} {{ int a; }};" for i in range(n)), "typedefs": lambda n: "typedef int t0;" + "".join(f"typedef t{i} t{i + 1};" for i in range(n)) + f"t{n} v;", "qualifiers": lambda n: "const " * n + "int v;", "longs": lambda n: "long " * n + "v;", "specs": lambda n: "unsigned " * n + "int v;",
        "adds": lambda n: "int g(int a) { return a" + " + a" * n + "; }", "addsr": lambda n: "int g(int a) { return " + "a * (1 + " * min(n, 100) + "a" + ")" * min(n, 100) + "; }", "commas": lambda n: "int g(int a) { return a" + ", a" * n + "; }", "assigns": lambda n: "int g(int a) { int b; b" + " = a" * min(n, 200) + "; return b; }", "ands": lambda n: "int g(int a) { return a" + " && a" * n + "; }", "ors": lambda n: "int g(int a) { return a" + " || a > 1" * n + "; }", "elseifs": lambda n: "int g(int a) {" + "".join(f"if (a == {i}) return {i}; else " for i in range(min(n, 200))) + "return 0; }", "scopes": lambda n: "int g(int a) {" + "{ int a; a = 1; }" * n + " return a; }", "calls": lambda n: "int h(int); int g(int a) {" + "a = h(a);" * n + " return a; }", "consts": lambda n: "int v = 1" + " + 2" * n + ";", "fconsts": lambda n: "double g(void) { double d = 0;" + "".join(f"d += {i}.5;" for i in range(n)) + "return d; }", "kandr": lambda n: "int g(" + ", ".join(f"p{i}" for i in range(n)) + ") " + "".join(f"int p{i};" for i in range(n)) + " { return 1; }", "loops": lambda n: "int g(int a) {" + "while (a--) if (a == 3) break;" * n + " return a; }", "live": lambda n: "int g(int *p) {" + "".join(f"int v{i} = p[{i}];" for i in range(n)) + "p[0] = 1; return v0" + "".join(f"*v{i}" for i in range(1, n)) + "; }", "dlive": lambda n: "double g(double *p) {" + "".join(f"double v{i} = p[{i}];" for i in range(n)) + "p[0] = 1; return v0" + "".join(f"*v{i}" for i in range(1, n)) + "; }",
        "macros": lambda n: "".join(f"#define M{i} {i}\n" for i in range(n)) + f"int v = M{n - 1};\n", "mparams": lambda n: "#define M(" + ", ".join(f"p{i}" for i in range(n)) + f") p{n - 1}\nint v = M(" + ", ".join(str(i) for i in range(n)) + ");\n", "margs": lambda n: "#define M(a) a\nint v = M(" + ", ".join(str(i) for i in range(n)) + ");\n", "ifs": lambda n: "#if 1\n" * n + "int a;\n" + "#endif\n" * n, "ifs0": lambda n: "#if 0\n" * n + "int a;\n" + "#endif\n" * n + "int b;\n", "elifs": lambda n: "#if 0\n" + "#elif 0\n" * n + "#else\nint a;\n#endif\n", "endifs": lambda n: "#if 1\n" + "#endif\n" * n, "chain": lambda n: "#define M0 1\n" + "".join(f"#define M{i + 1} M{i}\n" for i in range(n)) + f"int v = M{n};\n", "fchain": lambda n: "#define M0(a) a\n" + "".join(f"#define M{i + 1}(a) M{i}(a + 1)\n" for i in range(n)) + f"int v = M{n}(1);\n", "selfargs": lambda n: "#define M(a) a + a\nint v = " + "M(" * min(n, 10) + "1" + ")" * min(n, 10) + ";\n", "nestmac": lambda n: "#define M(a) a\nint v = " + "M(" * n + "1" + ")" * n + ";\n", "lines": lambda n: "\n" * n + "int v = __LINE__; error\n", "semis": lambda n: ";" * n + "int a;", "ifexpr": lambda n: "#if 1" + " + 1" * n + "\nint a;\n#endif\n", "undefs": lambda n: "#define X 1\n#undef X\n" * n, "pastes": lambda n: "#define P a" + "".join(f" ## {i}" for i in range(n)) + "\nint P;\n", "strargs": lambda n: "#define S(...) #__VA_ARGS__\n#define T(a) #a\nchar *s = T((" + ", ".join("x" for i in range(n)) + "));\n",
    }
    D = {       # depths
        "parens": lambda n: "int v = " + "(" * n + "1" + ")" * n + ";", "lparens": lambda n: "int g(int a) { return " + "(" * n + "a" + ")" * n + "; }", "unclosed": lambda n: "int v = " + "(" * n, "blocks": lambda n: "int g(int a) " + "{" * n + "a = 1;" + "}" * n, "unblocks": lambda n: "int g(int a) " + "{" * n, "unary": lambda n: "int g(int a) { return " + "- " * n + "a; }", "nots": lambda n: "int v = " + "!" * n + "1;", "stars": lambda n: "int " + "*" * n + "v; int g(void) { return " + "*" * n + "v; }", "dims": lambda n: "int v" + "[1]" * n + "; int g(void) { return v" + "[0]" * n + "; }", "fptrs": lambda n: "int " + "(*" * n + "v" + ")(int)" * n + ";", "declparens": lambda n: "int " + "(" * n + "v" + ")" * n + ";", "casts": lambda n: "int g(int a) { return " + "(char) (int) " * n + "a; }", "sizeofs": lambda n: "int v = " + "sizeof " * n + "1;", "ternaries": lambda n: "int g(int a) { return " + "a ? 1 : " * n + "2; }", "ternaries2": lambda n: "int g(int a) { return " + "a ? " * n + "2" + " : 3" * n + "; }", "ifs": lambda n: "int g(int a) { " + "if (a--) " * n + "a = 7; return a; }", "whiles": lambda n: "int g(int a) { " + "while (a--) " * n + "a = 7; return a; }", "fors": lambda n: "int g(int a) { " + "for (; a; a--) " * n + "a = 7; return a; }", "dos": lambda n: "int g(int a) { " + "do " * n + "a--;" + "while (a);" * n + " return a; }", "switches": lambda n: "int g(int a) { " + "switch (a) { case 1: " * n + "a = 7;" + "}" * n + " return a; }",
        "structs": lambda n: "struct {" * n + "int a;" + "".join(f"}} m{i};" for i in range(n)), "anon": lambda n: "struct s { " + "struct {" * (n - 1) + "int a;" + "};" * (n - 1) + " } v; int g(void) { return v.a; }", "unions": lambda n: "union u { " + "union {" * (n - 1) + "int a;" + "};" * (n - 1) + " } v; int g(void) { return v.a; }", "inits": lambda n: "int v = " + "{" * n + "1" + "}" * n + ";", "arrinits": lambda n: "int v" + "[1]" * n + " = " + "{" * n + "1" + "}" * n + ";", "calls": lambda n: "int h(int); int g(int a) { return " + "h(" * n + "a" + ")" * n + "; }", "index": lambda n: "int v[3]; int g(int a) { return " + "v[" * n + "a" + "]" * n + "; }", "arrows": lambda n: "struct s { struct s *n; int a; } *p; int g(void) { return p" + "->n" * n + "->a; }", "dots": lambda n: "".join(f"struct s{i} {{ struct s{i - 1} m; int a; }};" if i else "struct s0 { int a; };" for i in range(n)) + f"struct s{n - 1} v; int g(void) {{ return v" + ".m" * (n - 1) + ".a; }", "labels": lambda n: "int g(int a) { " + "".join(f"l{i}: " for i in range(n)) + "return a; }", "addrs": lambda n: "int g(int *a) { return *" + "&*" * n + "a; }", "incs": lambda n: "int g(int a) { return " + "++" * n + "a; }", "knest": lambda n: "int g(" + "int (*)(" * n + "int" + ")" * n + ");", "ifparens": lambda n: "#if " + "(" * n + "1" + ")" * n + "\nint a;\n#endif\n", "ifnots": lambda n: "#if " + "!" * n + "1\nint a;\n#endif\n", "iftern": lambda n: "#if " + "1 ? 1 : " * n + "2\nint a;\n#endif\n", "margparens": lambda n: "#define M(a) a\nint v = M(" + "(" * n + "1" + ")" * n + ");\n", "mopen": lambda n: "#define M(a) a\nint v = " + "M(" * n + "\n", "enumnest": lambda n: "int v = " + "sizeof(enum { " * 0 + "1;", "abstract": lambda n: "int v = sizeof(int " + "(*" * n + ")[2]" * n + ");",
    }
    for fam, tab, tops in (("len", L, 131073 if full else 20000), ("count", C, 1025 if full else 300), ("depth", D, 200)):
        for name, fn in tab.items():
            for n in sizes(tops):
                if n < 1 or n > tops: continue
                if name in ("arrsize", "offset", "escapes", "ppnum") and n > 20000: continue
                yield f"{fam}:{name}:{n}", fn(n) + "\n"


# ----------------------------------------------------------------------------- running
def harness():
    """The ASan build of the compiler with a main that forks for each input."""
    b = core.build("asan")
    exe = os.path.join(core.scratch(), "crash")
    if not os.path.exists(exe):
        fl = ["gcc", "-fsanitize=address", "-fno-omit-frame-pointer", "-O1", "-g", "-w"]
        for cmd in ([*fl, "-Dmain=wcc_main", "-c", os.path.join(b, "main.c"), "-o", exe + "-m.o"], [*fl, "-D_GNU_SOURCE", "-c", os.path.join(core.RT, "crash.c"), "-o", exe + "-c.o"], [*fl, exe + "-m.o", exe + "-c.o", os.path.join(b, "libwcc.a"), "-o", exe]):
            r = run(cmd, timeout=200)
            if r.rc: raise core.CheckError("building the harness: " + r.err[-800:])
    return exe


def signature(out):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", out)
    frames = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", out) if not f.startswith(("__", "str", "mem", "_IO", "vfprintf", "vsn", "printf", "fprintf", "sprintf", "main", "interceptor", "free", "malloc", "realloc", "panic", "error", "verror", "verprint", "wmalloc", "wrealloc", "raise", "abort"))]
    return f"{m[1] if m else 'no-report'}@{frames[0] if frames else '?'}"


def decode(inputs, out):
    found, done, pos = [], None, 0
    while pos < len(out):
        e = out.index(b"\n", pos)
        head = out[pos:e].decode().split()
        pos = e + 1
        if head[0] == "done":
            done = (int(head[1]), int(head[2]))
            continue
        i, kind, val, n = int(head[0]), head[1], int(head[2]), int(head[3])
        found.append((inputs[i], kind, val, out[pos:pos + n].decode(errors="replace")))
        pos += n
    return found, done


def batch(job):
    exe, flags, secs, inputs = job
    d = core.subdir("cr")
    try:
        with open(os.path.join(d, "blob"), "wb") as f:
            for k, t in inputs:
                t = t if isinstance(t, bytes) else t.encode()
                f.write(struct.pack("I", len(t)) + t)
        r = run([exe, "blob", "rep", str(secs), *flags], cwd=d, timeout=secs * len(inputs) + 60, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:malloc_context_size=5:quarantine_size_mb=8"})
        if r.rc: raise core.CheckError(f"the harness failed: {r.rc} {r.err[-500:]}")
        found, done = decode(inputs, open(os.path.join(d, "rep"), "rb").read())
        if not done: raise core.CheckError("the harness did not finish")
        return flags, len(inputs), found, done
    finally:
        core.rmtree(d)


def inputs(full):
    S = ["-S", "-o", "out.s"]
    for fam, secs, n in ((seqs, 20, 300), (cut, 20, 300), (edits, 20, 300), (pairs, 20, 300), (ladders, 100, 40)):
        items = list(fam(full))
        yield fam.__name__, S, secs, n, items
        if fam in (edits, ladders):
            step = 5 if full else 17
            yield fam.__name__ + "-E", ["-E", "-o", "out.i"], secs, n, [("E:" + k, t) for k, t in items[::step]]
            yield fam.__name__ + "-g-PIC", ["-g", "-fPIC", *S], secs, n, [("gP:" + k, t) for k, t in items[::step + 2]]
    for m in corpus.ALL:
        ps = corpus.engine_programs(m, every=1 if full else 29, size=25, phase=0) + (corpus.verdict_programs(m, 2) if full else [])
        by = {}
        for p in ps: by.setdefault(tuple(p.flags), []).append(("prog:" + p.key, p.text))
        for fl, it in by.items(): yield "programs", [*fl, *S], 100, 8, it
    ps = [p for m in ("c08", "c18") for p in corpus.verdict_programs(m, 2 if full else 17)]
    if ps: yield "verdicts", S, 20, 100, [("prog:" + p.key, p.text) for p in ps]
    ps = [p for m in ("c19", "c20") for p in corpus.pp_programs(m, 1 if full else 23) if not p.files]
    yield "pp", ["-E", "-o", "out.i"], 20, 100, [("prog:" + p.key, p.text) for p in ps]


def main():
    full = core.THOROUGH
    rep = Report("C23", LEVEL, "every input of the families; exit status 0 or 1 with a diagnostic, no report from AddressSanitizer, within the time limit", ["AddressSanitizer's report of memory errors", "nesting up to 200 levels"])
    exe = harness()
    jobs, per = [], {}
    for fam, flags, secs, n, items in inputs(full):
        seen, uniq = set(), []
        for k, t in items:
            if k in seen: continue
            seen.add(k); uniq.append((k, t))
        per[fam] = per.get(fam, 0) + len(uniq)
        jobs += [(exe, flags, secs, c) for c in corpus.chunks(uniq, n)]
        for k, t in (uniq[0], uniq[len(uniq) // 2]) if uniq else (): rep.sample(f"{k}: {str(t)[-200:]}")
    jobs.sort(key=lambda j: -j[2])
    ok = bad = internal = 0
    for flags, n, found, done in core.pmap(batch, jobs, stop=lambda: len(rep.fails) > 60):
        rep.evals += n
        ok += done[0]; bad += done[1]
        for (k, t), kind, val, out in found:
            if kind == "i":
                internal += 1
                continue
            what = {"s": f"killed by signal {val}" if val != 14 else "does not terminate", "x": f"exit status {val}"}[kind]
            sig = "hang" if kind == "s" and val == 14 else signature(out) if kind == "s" or val == 99 else f"status{val}-nothing-printed"
            rep.outcomes.add(sig)
            rep.fail(f"{sig}:{re.sub(chr(92) + 's+', '_', k)}", f"{what}: {out[:1500]}", {"in.c": t if isinstance(t, str) else t.decode("latin-1"), "FLAGS": " ".join(flags)})
    rep.nontrivial = bad
    rep.outcomes |= {f"accepted{ok > 0}", f"rejected{bad > 0}"}
    rep.extra.update(inputs=per, accepted=ok, rejected=bad, internal_errors=internal)
    return rep.finish()
