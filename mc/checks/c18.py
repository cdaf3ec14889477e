"""C18: accept/reject verdicts over exhaustively enumerated operand types, statements, declarations; compared with gcc and clang."""
import itertools, os
from .. import core
from ..core import Report, THOROUGH
from ..verdict import Case, Verdicts

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of (operator, operand type, operand type), conversions (target, source, context), lvalue contexts, statement nestings, specifier combinations and declarator forms; verdict compared with gcc and clang: valid programs must compile, those both compilers reject must be rejected with a located message, those they only diagnose in pedantic mode must be at least warned about where wcc checks at all"
NOTE = "Reference verdicts: gcc and clang -std=gnu89, without and with -pedantic-errors; programs on which they disagree are not judged. A constraint that gcc and clang by default only warn about may be warned about by wcc."

PRO = """
struct s { int m; char *p; int b : 3; struct s *n; }; struct q { int m; char *p; }; union u { int m; double d; }; struct inc; enum e { EA = -1, EB, EC }; typedef int td; typedef int ft(void);
struct cs { const int m; int o; };
char c; int i; unsigned ui; long l; unsigned char uc; short sh; float f; double d; long double ld; enum e en; int *pi; const int *pci; char *pc; void *pv; int **ppi; struct s s, *ps; struct q q, *pq; union u u, *pu;
struct inc *pinc; int (*pf)(void); int (*pfi)(int); int arr[3]; int mat[2][3]; int (*pa)[3]; struct s sarr[2]; const int ci = 1; int *const cpi = 0; const struct s cst; const int carr[2]; struct cs cs; volatile int vi; unsigned *pui; struct s fs(void); int fi(void); void fv(void);
int fii(int); int *fp(void); int f2(int, char *); int fk(); int fvar(int, ...); int fst(struct s); int fpt(int *); float ff(float); const char *pcc; double *pd; unsigned long ul; double fd(void);
"""
OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", "==", "!=", "&&", "||", ",", "=", "+=", "-=", "*=", "%=", "<<=", "&="]
# one operand per kind of type
OPERANDS = ["c", "i", "ui", "l", "f", "d", "ld", "en", "pi", "pci", "pc", "pv", "ppi", "s", "q", "u", "ps", "pq", "pinc", "pf", "pfi", "arr", "mat", "pa", "fi", "fv()", "fs()", "ci", "cst", "s.b", "0", "1", "1.5",
            "(void *) 0", '"ab"', "&arr", "&fi", "cpi", "EB", "cs"]
MORE = ["uc", "sh", "vi", "ul", "pui", "pd", "carr", "sarr", "pu", "fs().m", "fp()", "*pv", "(char) 0", "&i", "ps->p", "pcc"]
UNARY = ["+{}", "-{}", "~{}", "!{}", "*{}", "&{}", "++{}", "--{}", "{}++", "{}--", "sizeof({})", "{}[0]", "{}[i]", "{}[d]", "{}()", "{}(1)", "{}.m", "{}->m", "{}.zz", "{}->zz", "{}.b", "{}->n", "if ({}) ;", "while ({}) ;", "do ; while ({});",
         "for (;{};) ;", "switch ({}) {{ }}", "{} ? 1 : 2", "return {};", "0[{}]", "({})", "**{}", "&*{}", "*&{}", "sizeof {}", "case {}: ;", "(void) {}", "!!{}", "&{}[0]", "i + !{}"]
CASTS = ["char", "int", "unsigned long", "float", "double", "long double", "enum e", "int *", "const int *", "void *", "struct s", "struct q", "union u", "struct s *", "struct inc *", "struct inc", "int (*)(void)", "void", "int[3]", "int (*)[3]", "int (void)", "struct cs"]
LVALUES = ["i", "(i)", "i + 1", "fi()", "i ? i : i", "(i, i)", "(int) i", "i++", "++i", "-i", "!i", "arr", "arr[1]", "mat[1]", "mat[1][2]", '"ab"', '"ab"[0]', "s", "s.m", "fs().m", "fs()", "EA", "5", "*pi", "pi[1]", "ci", "*pci", "cst", "cst.m", "carr[0]", "cs", "cs.m", "cs.o",
           "s.b", "ps->b", "ps->n->m", "fi", "*pv", "*pf", "*pinc", "cpi", "*cpi", "u", "u.d", "pv", "*ppi", "**ppi", "i = 1", "(i = 1)", "*fp()", "&i", "sizeof i", "en", "pf", "1.5", "ld", "vi", "sarr[1].n", "sarr[1].b", "i + i", "i && i", "*&i", "*arr", "arr + 1", "*(arr + 1)", "(void) i", "fv()"]
LCTX = ["{} = 1;", "{} = i;", "{} += 1;", "++{};", "{}--;", "&{};", "sizeof({});", "{};", "pv = &{};", "{} = s;", "{} = pi;"]
PLACES = ["{}", "while (i) {{ {} }}", "do {{ {} }} while (i);", "for (;;) {{ {} }}", "switch (i) {{ {} }}", "if (i) {{ {} }}", "{{ {} }}", "switch (i) {{ case 7: ; {} }}", "switch (i) {{ default: ; {} }}", "lab: {}", "if (i) ; else {{ {} }}"]
STATS = ["break;", "continue;", "case 1: ;", "default: ;", "case 7: ;", "case i: ;", "case 1.5: ;", "case EB: ;", "case 1 + 6: ;", "goto lab;", "goto other;", "lab: ;", "return;", "return 1;", "else ;", ";", "int z; z = 1;", "case 1: case 2: ;", "case 1: ; case 1: ;", "default: ; default: ;",
         "i = 1; int z;", "case 1: int z;", "{ int z; }", "while (i) break; continue;", "break; case 1: ;"]
SPECS = ["void", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "struct s", "td", "enum e", "const", "static"]
DECLS = ["void x@", "void x@[3]", "void *x@", "int x@[-1]", "int x@[i]", "int x@[1.5]", "int x@[2.0 > 1]", "int x@[EC]", "int x@[sizeof(int)]", "int x@[]", "int x@[][3]", "int x@[3][]", "struct inc x@", "struct inc x@[2]", "struct inc *x@", "struct inc *x@[2]", "struct inc x@(void)", "struct inc (*x@)(void)", "struct inc (*x@)[2]",
         "int x@(void)[3]", "int x@(void)(void)", "int x@[3](void)", "int (*x@[3])(void)", "int (*x@(void))[3]", "int (*x@(void))(void)", "int x@(int)", "int x@(int a, int b)", "int x@(void, int)", "int x@(int, void)", "int x@(void a)", "int x@(...)", "int x@(int, ...)", "int x@(..., int)",
         "int x@(a)", "int x@(struct inc)", "int x@(int a[])", "int x@(int a[][3])", "int x@(int a[][])", "int x@(int (void))", "ft x@", "ft *x@", "ft x@[2]", "ft x@(void)", "struct { int a; int a; } x@", "struct { int a; struct { int c; } a; } x@", "struct { } x@", "struct { int; } x@", "struct { int a : 3; } x@", "struct { int a : 33; } x@",
         "struct { int a : -1; } x@", "struct { int a : 0; } x@", "struct { int : 0; int b; } x@", "struct { float a : 3; } x@", "struct { int *a : 3; } x@", "struct { int a : i; } x@", "struct { int a : EC; } x@", "struct y@ { struct y@ a; } x@", "struct y@ { struct y@ *a; } x@", "struct { void a; } x@", "struct { int a(void); } x@",
         "struct { int a[]; } x@", "struct { struct inc a; } x@", "struct { struct inc *a; } x@", "union { int a; struct inc b; } x@", "union y@ { union y@ *a; } x@", "enum { } x@", "enum { A@, A@ } x@", "enum { A@ = i } x@", "enum { A@ = 1.5 } x@", "enum { A@ = 'a', B@ = A@ + 1 } x@", "enum zz@ x@", "struct zz@ x@", "struct zz@ *x@", "zz@ x@", "int int@", "const x@", "static x@", "int x@ y@",
         "int *x@[2]", "int (x@)", "int ((*x@))", "int *(*x@)", "int & x@", "int x@, x@", "int x@, *y@", "int x@, y@(void), z@[2]", "int", "struct s", "struct y@", "struct { int a; }", "long long x@", "long long long x@", "int x@ = 1", "int x@ = i", "int x@ = {1}", "int x@ = {1, 2}", "int x@ = {}", "int x@[2] = {1, 2, 3}", "int x@[2] = {1, 2,}",
         "int x@[2] = 1", "int x@[] = {1, 2}", "int x@[] = {}", "int x@[2][2] = {{1, 2}, {3}}", "int x@[2][2] = {{1, 2, 3}}", "int x@[2][2] = {{{1}}}", "char x@[2] = \"a\"", "char x@[2] = \"ab\"", "char x@[2] = \"abc\"", "char x@[] = \"abc\"", "char x@[] = {\"abc\"}", "char *x@ = \"abc\"", "int x@[] = \"abc\"", "char x@[2] = {'a', 'b'}",
         "struct s x@ = {1, \"a\", 2}", "struct s x@ = {1, \"a\", 2, 0, 5}", "struct s x@ = 1", "struct s x@ = {{1}}", "union u x@ = {1}", "union u x@ = {1, 2}", "int *x@ = &i", "int *x@ = &i + 1", "int *x@ = arr", "int *x@ = 0", "int *x@ = pi", "int (*x@)(void) = fi", "int (*x@)(void) = &fi", "int (*x@)(void) = 0", "int (*x@)(void) = fv", "void x@ = 0",
         "int x@(void) = 0", "extern int x@", "double x@ = 1", "int x@ = 1.5", "int x@ = sizeof(x@)", "void *x@ = &x@", "int x@ = fi()", "int x@ = (i, 1)", "int x@ = 1 ? 2 : i", "int x@ = &i", "char x@ = 300", "int x@ = 1 / 0", "int x@ = i++", "int x@ = 5 = 5", "int x@ = sizeof(struct inc)", "int x@ = sizeof(int (void))", "int x@ = sizeof(void)", "int x@ = sizeof s.b", "int x@ = sizeof(arr)"]


def cases():
    ops = OPERANDS + (MORE if THOROUGH else [])
    for o in OPS:
        for a, b in itertools.product(ops, repeat=2):
            yield Case(f"bin:{a}:{o}:{b}".replace(" ", "_"), f"void g@(void) {{ {a} {o} {b}; }}")
    for a, b in itertools.product(ops, repeat=2):
        yield Case(f"cond:{a}:{b}".replace(" ", "_"), f"void g@(void) {{ i ? {a} : {b}; }}")
    for t in UNARY:
        for a in OPERANDS + MORE:
            st = t.format(a)
            yield Case(f"un:{t}:{a}".replace(" ", "_"), f"int g@(void) {{ {st}{'' if st.endswith((';', '}')) else ';'} }}")
    tys = [("int", "i"), ("char", "c"), ("double", "d"), ("long double", "ld"), ("int *", "pi"), ("const int *", "pci"), ("char *", "pc"), ("void *", "pv"), ("int **", "ppi"), ("struct s", "s"), ("struct q", "q"), ("union u", "u"), ("struct s *", "ps"), ("struct inc *", "pinc"),
           ("enum e", "en"), ("struct cs", "cs")]
    for t, _ in tys + [("void", "")]:
        n = t.replace(" ", "_")
        for a in OPERANDS + MORE:
            k = a.replace(" ", "_")
            yield Case(f"ret:{n}:{k}", f"{t} g@(void) {{ return {a}; }}")
            if t == "void": continue
            yield Case(f"init:{n}:{k}", f"void g@(void) {{ {t} x = {a}; }}")
            yield Case(f"minit:{n}:{k}", f"void g@(void) {{ struct {{ {t} m; }} x = {{ {a} }}; }}")
            yield Case(f"arg:{n}:{k}", f"void h@({t}); void g@(void) {{ h@({a}); }}")
            if a in ("ci", "cpi"): continue         # constant expressions in gcc and clang, but not in C
            yield Case(f"ginit:{n}:{k}", f"{t} x@ = {a};")
            yield Case(f"sinit:{n}:{k}", f"void g@(void) {{ static {t} x = {a}; }}")
    for t in CASTS:
        for a in OPERANDS + MORE:
            yield Case(f"cast:{t}:{a}".replace(" ", "_"), f"void g@(void) {{ ({t}) {a}; }}")
    for x in LCTX:
        for a in LVALUES:
            yield Case(f"lv:{x}:{a}".replace(" ", "_"), f"void g@(void) {{ {x.format(a)} }}")
            if x != "{};": yield Case(f"lvp:{x}:{a}".replace(" ", "_"), f"void g@(void) {{ {x.format('(' + a + ')')} }}")
    for p in PLACES:
        for q in PLACES:
            for s in STATS:
                if p.startswith("lab") and q.startswith("lab"): continue
                yield Case(f"st:{p}:{q}:{s}".replace(" ", "_"), f"void g@(void) {{ {p.format(q.format(s))} ; }}")
    for ret in ("void", "int", "struct s", "int *", "double"):
        for st in ("return;", "return 1;", "return (1);", "return s;", "return pi;", "return fv();", "return 1.5;", ";", "return 0;", "return pi, 1;"):
            yield Case(f"rt:{ret}:{st}".replace(" ", "_"), f"{ret} g@(void) {{ {st} }}")
    for fn in ("fi", "fii", "f2", "fk", "fvar", "fst", "fpt", "ff", "fv", "pf", "pfi", "(*pf)", "(&fi)", "(**pf)", "i", "pi", "s", "ps", "fs", "0", "arr", "(*pi)", "s.m", "(fi)"):
        for args in ("", "1", "1, 2", "1, pc", "s", "pi", "0", "fv()", "1, 2, 3", "pc, 1", "1.5", "1, s", "arr", '1, "a"', "q", ",", "1,", "int", "fi", "(1, 2)", "1, fv()"):
            yield Case(f"call:{fn}({args})".replace(" ", "_"), f"void g@(void) {{ {fn}({args}); }}")
    for n in (1, 2, 3, 4) if THOROUGH else (1, 2, 3):
        for w in itertools.product(SPECS, repeat=n):
            if n > 2 and "struct s" in w and "enum e" in w: continue
            yield Case(f"spec:{'_'.join(w)}".replace("struct s", "s"), f"{' '.join(w)} x@;")
            if n < 3: yield Case(f"specp:{'_'.join(w)}".replace("struct s", "s"), f"{' '.join(w)} *x@;")
            if n < 3: yield Case(f"spect:{'_'.join(w)}".replace("struct s", "s"), f"int x@ = sizeof({' '.join(w)});")
            if n < 3: yield Case(f"specl:{'_'.join(w)}".replace("struct s", "s"), f"void g@(void) {{ {' '.join(w)} x; }}")
            if n < 3: yield Case(f"specm:{'_'.join(w)}".replace("struct s", "s"), f"struct g@ {{ {' '.join(w)} x; }};")
    for dc in DECLS:
        k = dc.replace(" ", "_")
        yield Case(f"dcl:{k}", f"{dc};")
        yield Case(f"dclb:{k}", f"void g@(void) {{ {dc}; }}")
        yield Case(f"dcls:{k}", f"void g@(void) {{ static {dc}; }}")
        yield Case(f"dclt:{k}", f"typedef {dc};")
        yield Case(f"dclm:{k}", f"struct g@ {{ {dc}; }};")
        yield Case(f"dclp:{k}", f"void g@({dc});")
        yield Case(f"dclf:{k}", f"void g@({dc}) {{ }}")
    for q in ("int *const", "const int", "const int *const", "int *const *", "const int *", "struct s *const", "int (*const", "const struct s"):
        t = q + (" x@)(void)" if "(" in q else " x@")
        for decls in (f"extern {t}; {t};", f"{t}; extern {t};", f"{t};", f"extern {t}; extern {t};", f"{t}; {t}; {t};"):
            for st in ("x@ = 0;", "*x@ = 0;", "**x@ = 0;", "x@++;", "x@ = x@;", "x@->m = 1;", "x@.m = 1;", "sizeof x@;", "x@ + 1;"):
                yield Case(f"rdc:{q}:{decls.replace(t, 'D')}:{st}".replace(" ", "_"), f"{decls} void g@(void) {{ {st} }}")


# programs of which every token is deleted, doubled, exchanged with the next one and replaced
SEEDS = [
    "typedef struct t { int a , * b ; unsigned c : 3 ; } T ; enum k { K1 , K2 = 4 } ; extern int v [ 3 ] ; static T t = { 1 , & v [ 1 ] , 2 } ; int h ( int a , const char * b , ... ) ;",
    "int g ( T * p , int n ) { int j = 0 , m [ 2 ] ; for ( j = 0 ; j < n ; j ++ ) { if ( p -> a ) continue ; else break ; } while ( n -- ) m [ 0 ] += * p -> b ; do { n ++ ; } while ( n < 3 ) ; return j ? m [ 1 ] : ( int ) p -> c ; }",
    "void w ( int n ) { switch ( n ) { case 1 : n = 2 ; break ; case 2 : case 3 : { int z ; z = n ; } default : goto out ; } ; if ( n && ! n ) { h ( 1 , \"s\" , n ) ; } else n = sizeof ( T ) ; out : return ; }",
    "int o ( a , b ) int a ; char * b ; { register int r ; { char r ; r = 'x' ; } r = a , ++ r ; return r << 1 | ~ a ; } int ( * fp ) ( ) = o ; char s [ ] = \"ab\" \"c\" ;",
]
REPL = ["(", ")", "{", "}", "[", "]", ";", ",", ":", "*", "=", "int", "x", "1", "const", "?", ".", "if", "typedef", "case", "\"s\"", "1.5"]


def mutants():
    for si, seed in enumerate(SEEDS):
        tok = seed.split()
        pre = "typedef struct t { int a , * b ; unsigned c : 3 ; } T ; int h ( int a , const char * b , ... ) ; " if si else ""
        seen = {seed}
        for i in range(len(tok)):
            ms = [("del", tok[:i] + tok[i + 1:]), ("dup", tok[:i + 1] + tok[i:])]
            if i + 1 < len(tok): ms.append(("swap", tok[:i] + [tok[i + 1], tok[i]] + tok[i + 2:]))
            for r in REPL if THOROUGH else REPL[::2]: ms.append((f"r{r}", tok[:i] + [r] + tok[i + 1:]))
            for r in REPL if THOROUGH else REPL[:8]: ms.append((f"i{r}", tok[:i] + [r] + tok[i:]))
            for k, m in ms:
                t = " ".join(m)
                if t in seen or "for ( int" in t: continue   # declarations in for are an extension of wcc
                seen.add(t)
                yield Case(f"mut{si}:{i}:{k}", pre + t)
        yield Case(f"mut{si}::", pre + seed)


def main():
    rep = Report("C18", LEVEL, "a program counts when gcc and clang agree on its verdict", ["gcc and clang agree on the verdict"])
    cs = list(cases())
    ver = Verdicts(rep, PRO)
    ver.reference(cs)
    rep.nontrivial = len(ver.rejected) + len(ver.accepted) + len(ver.diagnosed)
    rep.extra.update(valid=len(ver.accepted), rejected_by_default=len(ver.rejected), diagnosed_when_pedantic=len(ver.diagnosed), references_disagree=len(ver.undecided))
    for c in ver.rejected[:2] + ver.accepted[:2] + ver.diagnosed[:2]: rep.sample(c.key)
    ver.check_accepted()
    ver.check_rejected()
    mut = Verdicts(rep, "")
    mut.reference(list(mutants()), 1)
    rep.nontrivial += len(mut.rejected) + len(mut.accepted) + len(mut.diagnosed)
    rep.extra.update(mutants_valid=len(mut.accepted), mutants_rejected=len(mut.rejected), mutants_other=len(mut.diagnosed) + len(mut.undecided))
    mut.check_accepted(1)
    mut.check_rejected()
    if os.environ.get("MC_PED"): ver.check_diagnosed()
    return rep.finish()
