"""C17: every sequence of declarations of one identifier up to a length; verdict, symbol table and the values seen by separately compiled units."""
import itertools, os, re
from .. import core
from ..core import Report, THOROUGH, run, write
from ..verdict import Case, Verdicts, chunks, wcc_run

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of declaration sequences (storage class, scope, initializer, type) up to length 3-4; verdict, ELF symbol (binding, section, size, alignment) and initial value compared with gcc and clang; all pairs of accepted two-declaration sequences over two units linked in the mixes wcc+wcc, wcc+gcc, gcc+wcc and run"
NOTE = "gcc -fcommon is the reference for tentative definitions, since wcc emits common symbols. Programs on which gcc and clang disagree are not judged."

# object declarations; B: a block scope extern declaration
OBJ = {"t": "int x@;", "d": "int x@ = 41;", "e": "extern int x@;", "i": "extern int x@ = 42;", "s": "static int x@;", "S": "static int x@ = 43;",
       "B": "int b@_%(void) { extern int x@; return x@; }", "H": "int b@_%(void) { int x@ = 3; { extern int x@; return x@; } }", "u": "int b@_%(void) { return x@; }"}
# functions
FUN = {"p": "int x@(void);", "e": "extern int x@(void);", "s": "static int x@(void);", "k": "int x@();", "D": "int x@(void) { return 51; }", "E": "extern int x@(void) { return 52; }",
       "S": "static int x@(void) { return 53; }", "K": "int x@() { return 54; }", "B": "int b@_%(void) { int x@(void); return x@(); }",
       "X": "int b@_%(void) { extern int x@(void); return x@(); }", "u": "int b@_%(void) { return x@(); }", "a": "int (*a@_%)(void) = x@;"}
# arrays: the bound may come from any of the declarations
ARR = {"t": "int x@[];", "T": "int x@[3];", "e": "extern int x@[];", "E": "extern int x@[3];", "d": "int x@[] = {1, 2, 3};", "D": "int x@[3] = {4};", "4": "int x@[4];",
       "S": "static int x@[3];", "s": "static int x@[] = {5, 6, 7};", "u": "int b@_%(void) { return x@[1]; }", "z": "int b@_%(void) { return sizeof(x@); }"}
# types and qualifiers
TYPES = ["int x@", "unsigned x@", "long x@", "char x@", "signed char x@", "float x@", "int *x@", "const int x@", "int const *x@", "int *const x@", "int x@[3]", "int x@[4]", "int x@[]",
         "struct s x@", "struct q x@", "union u x@", "enum e x@", "int x@()", "int x@(void)", "int x@(int)", "int x@(long)", "int x@(char)", "int x@(int, ...)", "long x@(void)", "int *x@(void)", "void x@(void)",
         "int (*x@)()", "int (*x@)(void)", "int (*x@)(int)", "int (*x@)[]", "int (*x@)[3]", "int (*x@)[4]", "td x@", "void *x@", "int x@(int *)", "int x@(int [])", "int x@(int [3])", "int x@(const int)", "int x@(int (*)(void))", "int x@(int (void))"]
PRO = "struct s { int a; }; struct q { int a; }; union u { int a; long b; }; enum e { A = -1, B }; typedef int td;\n"
# block scope
BLK = {"i": "int x@;", "I": "int x@ = 1;", "s": "static int x@;", "e": "extern int x@;", "l": "long x@;", "t": "typedef int x@;", "n": "enum { x@ };", "f": "int x@(void);", "L": "extern long x@;",
       "g": "struct x@ { int a; };", "G": "struct x@;", "h": "union x@ { int a; };", "m": "enum x@ { m@_% };", "b": "x@: ;"}


def seqs(alpha, n, fmt):
    for k in range(1, n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield Case(fmt + "".join(w), "\n".join(alpha[c].replace("%", str(i)) for i, c in enumerate(w)), w)


def cases():
    yield from seqs(OBJ, 4 if THOROUGH else 3, "obj:")
    yield from seqs(FUN, 4 if THOROUGH else 3, "fun:")
    yield from seqs(ARR, 4 if THOROUGH else 3, "arr:")
    sto = ["", "extern ", "static "]
    for a in TYPES:
        for b in TYPES:
            for sa, sb in itertools.product(sto if THOROUGH else ["", "extern "], sto):
                yield Case(f"type:{sa}{a};{sb}{b}".replace(" ", "_"), f"{sa}{a}; {sb}{b};")
    for a, b in itertools.product(TYPES, repeat=2):
        if "(" in a and not "(*" in a:
            yield Case(f"btype:{a};{b}".replace(" ", "_"), f"{a}; void b@(void) {{ {b}; }}")
        yield Case(f"etype:{a};{b}".replace(" ", "_"), f"{a}; void b@(void) {{ extern {b}; }}")
        yield Case(f"bb:{a};{b}".replace(" ", "_"), f"void b@(void) {{ extern {a}; extern {b}; }}")
    for k in (1, 2, 3) if THOROUGH else (1, 2):
        for w in itertools.product(BLK, repeat=k):
            body = " ".join(BLK[c].replace("%", str(i)) for i, c in enumerate(sorted(w, key=lambda c: c == "b")))
            yield Case("blk:" + "".join(w), f"void b@(void) {{ {body} ; }}")
            yield Case("par:" + "".join(w), f"void b@(int x@) {{ {body} ; }}")
            yield Case("file:" + "".join(w), " ".join(BLK[c].replace("%", str(i)) for i, c in enumerate(w)) if "b" not in w else "int b@ = ;")
    for pl in ("int x@, int x@", "int x@, long x@", "int x@, int (x@)", "struct x@ *x@", "int x@(int x@)", "td td", "register int x@", "static int x@", "extern int x@", "typedef int x@", "auto int x@"):
        for body in (";", "{ }", "{ int x@; }", "{ { int x@; } }", "{ return; }"):
            yield Case(f"plist:{pl}:{body}".replace(" ", "_"), f"void b@({pl}) {body}")
    for spec in itertools.product(["static", "extern", "typedef", "auto", "register"], repeat=2):
        yield Case(f"sto2:{'_'.join(spec)}", f"{' '.join(spec)} int x@;")
        yield Case(f"sto2b:{'_'.join(spec)}", f"void b@(void) {{ {' '.join(spec)} int x@; }}")
    for spec in ["static", "extern", "typedef", "auto", "register"]:
        for ctx, t in (("file", "{} int x@;"), ("init", "{} int x@ = 1;"), ("fun", "{} int x@(void);"), ("def", "{} int x@(void) {{ return 1; }}"), ("blk", "void b@(void) {{ {} int x@; }}"), ("blki", "void b@(void) {{ {} int x@ = 1; }}"),
                       ("blkf", "void b@(void) {{ {} int x@(void); }}"), ("mem", "struct g@ {{ {} int a; }};"), ("parm", "void b@({} int a) {{ }}"), ("cast", "int b@ = ({} int) 1;"), ("for", "void b@(void) {{ int i; for (i = 0; i < 1; i++) {{ {} int x@; }} }}")):
            yield Case(f"sto:{spec}:{ctx}", t.format(spec))


def open_verdict(c):
    fam = c.key.split(":")[0]
    if fam in ("etype", "btype"): return True
    if fam in ("obj", "fun"):
        for i, k in enumerate(c.extra):
            if k in "sS" and not any(x in "tdeipkDEK" + "sS" for x in c.extra[:i]) and any(x in "BHXu" for x in c.extra[:i]): return True
    return False


# --------------------------------------------------------------------------- symbol tables
def symbols(obj):
    r = run(["readelf", "-SsW", obj])
    if r.rc: raise core.CheckError(r.err)
    secs, syms = {}, {}
    for m in re.finditer(r"^\s*\[\s*(\d+)\] (\S+)\s+(\S+)", r.out, re.M): secs[m[1]] = m[2]
    for m in re.finditer(r"^\s*\d+: (\w+)\s+(\d+|0x\w+) (\w+)\s+(\w+)\s+\w+\s+(\w+) (\S+)$", r.out, re.M):
        val, size, typ, bind, ndx, name = m.groups()
        sec = {"UND": "undefined", "COM": "common"}.get(ndx) or secs.get(ndx, ndx)
        sec = "data" if re.match(r"\.(data|rodata|bss)", sec) else "code" if sec.startswith(".text") else sec
        if sec == "common" or bind == "GLOBAL": pass
        syms[name] = (bind, sec, int(size, 0) if sec in ("data", "common") else 0, typ if sec in ("data", "code") else "", int(val, 16))
    return syms


def compare(case, i, ws, gs):
    """difference between the symbols of a case in two objects, or None."""
    pat = re.compile(r"(x%d|b%d_\d+|a%d_\d+)$" % (i, i, i))
    w = {n: v for n, v in ws.items() if pat.match(n) and v[0] == "GLOBAL"}
    g = {n: v for n, v in gs.items() if pat.match(n) and v[0] == "GLOBAL"}
    for n in sorted(set(w) | set(g)):
        a, b = w.get(n), g.get(n)
        if a is None or b is None: return f"global symbol {n}: wcc {a}, gcc {b}"
        if a[:4] != b[:4]: return f"symbol {n}: wcc {a}, gcc {b}"
        if a[1] == "common" and a[4] % (8 if n[0] == "a" else 4): return f"symbol {n}: alignment {a[4]}"
    return None


def compile_pair(wcc, d, text, name):
    write(os.path.join(d, name + ".c"), text)
    r = run([wcc, "-c", name + ".c", "-o", name + "w.o"], cwd=d, timeout=60)
    if r.rc: return "wcc: " + r.err[-300:]
    r = run(["gcc", "-std=gnu89", "-w", "-fcommon", "-O0", "-fno-builtin", "-fno-pie", "-c", name + ".c", "-o", name + "g.o"], cwd=d, timeout=100)
    if r.rc: raise core.CheckError("gcc: " + r.err[-500:])
    return None


def tables(rep, ver, cs):
    def one(b):
        d = core.subdir("sym")
        out = []
        e = compile_pair(ver.wcc, d, ver.prologue + "\n".join(c.text(i) for i, c in enumerate(b)) + "\n", "u")
        if e is None:
            ws, gs = symbols(d + "/uw.o"), symbols(d + "/ug.o")
            for i, c in enumerate(b):
                m = compare(c, i, ws, gs)
                if m: out.append((c, m))
        elif len(b) > 1:
            core.rmtree(d)
            h = len(b) // 2
            return one(b[:h]) + one(b[h:])
        core.rmtree(d)
        return out
    sel = [c for c in ver.accepted if c.extra and c.key not in ver.bad]
    rep.evals += len(sel)
    for fs in core.pmap(one, chunks(sel, 100)):
        for c, m in fs:
            rep.fail("sym:" + c.key, m + "\n" + c.text(0), {"a.c": c.text(0) + "\n", "run.sh": "# compare readelf -sW of wcc -c and gcc -fcommon -c\n"})


# --------------------------------------------------------------------------- two units
def units(rep, ver):
    """Pairs of accepted sequences of up to two declarations, in two units, with uses; those that gcc links are linked in all mixes and run."""
    n = 3 if THOROUGH else 2
    for kind, alpha in (("obj", OBJ), ("fun", FUN), ("arr", ARR)):
        acc = [c for c in ver.accepted if c.extra and c.key not in ver.bad and c.key.startswith(kind + ":") and len(c.extra) <= n and not (len(c.extra) == 3 and THOROUGH and set(c.extra) & set("uBHXaz"))]
        acc = [c for c in acc if kind == "fun" or set(c.extra) - set("BHuz")]
        get = {"obj": "int g@_$(void) { return x@; } void s@_$(void) { x@ += 100; }", "fun": "int g@_$(void) { return x@(); }", "arr": "int g@_$(void) { return x@[0] + x@[2]; } void s@_$(void) { x@[0] += 100; x@[2] += 10; }"}[kind]
        ex = {c.key: c for c in acc}
        # the linker's verdict depends on what each unit holds: undefined, common, defined or local
        info = {}
        for b in chunks(acc, 100):
            d = core.subdir("cl")
            e = compile_pair(ver.wcc, d, ver.prologue + "\n".join((c.src + "\n" + get).replace("@", str(i)).replace("$", "0") for i, c in enumerate(b)) + "\n", "u")
            if e: raise core.CheckError(e)
            gs = symbols(d + "/ug.o")
            for i, c in enumerate(b):
                s = gs.get(f"x{i}")
                info[c.key] = "local" if s is None or s[0] == "LOCAL" else s[1]
            core.rmtree(d)
        pairs = []
        for a, b in itertools.product(info, repeat=2):
            ia, ib = info[a], info[b]
            if ia == "local" and ib == "undefined" or ib == "local" and ia == "undefined": continue
            if ia == ib == "undefined": continue
            if ia in ("data", "code") and ib in ("data", "code"): continue
            pairs.append((a, b))

        def one(ps):
            d = core.subdir("un")
            dec = lambda t, i, u: re.sub(r"\b([ab])@_", r"\g<1>%s@_" % u, t).replace("@", str(i)).replace("$", u)
            ta = ver.prologue + "\n".join(dec(ex[a].src + "\n" + get, i, "0") for i, (a, b) in enumerate(ps)) + "\n"
            tb = ver.prologue + "\n".join(dec(ex[b].src + "\n" + get, i, "1") for i, (a, b) in enumerate(ps)) + "\n"
            m = ["int printf();"]
            for i in range(len(ps)):
                m.append(f"int g{i}_0(void), g{i}_1(void); void s{i}_0(void), s{i}_1(void);")
            m.append("int main(void) {")
            for i in range(len(ps)):
                st = lambda u: f"s{i}_{u}();" if kind != "fun" else ""
                m.append(f'printf("{i} %d %d", g{i}_0(), g{i}_1()); {st(0)} printf(" %d %d", g{i}_0(), g{i}_1()); {st(1)} printf(" %d %d\\n", g{i}_0(), g{i}_1());')
            m.append("return 0; }")
            write(d + "/m.c", "\n".join(m) + "\n")
            fails = []
            try:
                for n, t in (("a", ta), ("b", tb)):
                    if compile_pair(ver.wcc, d, t, n): return fails
                run(["gcc", "-w", "-O0", "-fno-pie", "-c", "m.c", "-o", "m.o"], cwd=d)
                outs = {}
                for x, y in ("gg", "ww", "wg", "gw"):
                    r = run(["gcc", "-no-pie", "-z", "noexecstack", f"a{x}.o", f"b{y}.o", "m.o", "-o", "p"], cwd=d)
                    if r.rc: outs[x + y] = ["link: " + l for l in r.err.splitlines()]
                    else: outs[x + y] = run(["./p"], cwd=d, timeout=20).out.splitlines()
                if outs["gg"] and outs["gg"][0].startswith("link"): raise core.CheckError("reference link: " + outs["gg"][0])
                for k in ("ww", "wg", "gw"):
                    if outs[k] == outs["gg"]: continue
                    if len(ps) > 1: fails.append(None); break
                    fails.append((ps[0], k, outs["gg"], outs[k][:4], ta, tb))
                    break
            finally:
                core.rmtree(d)
            if fails == [None]:
                h = len(ps) // 2
                return one(ps[:h]) + one(ps[h:])
            return fails

        rep.evals += len(pairs)
        rep.extra[f"linked_pairs_{kind}"] = len(pairs)
        for fs in core.pmap(one, chunks(pairs, 60)):
            for (a, b), k, exp, got, ta, tb in fs:
                rep.fail(f"link:{a}+{b}", f"units compiled by {k} (w wcc, g gcc): expected {exp}, got {got}", {"a.c": ta, "b.c": tb, "run.sh": "# compile a.c and b.c with wcc, link\n"})


def main():
    rep = Report("C17", LEVEL, "a declaration sequence counts when gcc and clang agree on its verdict",
                 ["gcc and clang agree on the verdict", "gcc -fcommon as the reference for symbols"])
    ver = Verdicts(rep, PRO)
    ver.reference(list(cases()))
    # Conflicts between declarations in different scopes are undefined behaviour, not constraint violations: C leaves their verdict open
    ver.rejected = [c for c in ver.rejected if not open_verdict(c)]
    rep.nontrivial = len(ver.accepted) + len(ver.rejected)
    rep.extra.update(accepted=len(ver.accepted), rejected=len(ver.rejected), references_disagree=len(ver.undecided))
    for c in ver.accepted[:2] + ver.rejected[:2]: rep.sample(c.key)
    ver.check_accepted()
    ver.check_rejected()
    tables(rep, ver, None)
    units(rep, ver)
    return rep.finish()
