"""C30: the machine-level call discipline of every function on every explored path: each compiled function is entered and left through a monitor
that records what it must preserve, at every call whoever makes it; then the same programs are interrupted after every single instruction."""
import importlib, os, re
from .. import core
from ..core import Report, read, run, write
from ..diff import Case, Engine
from . import c07

LEVEL = "exploration"
TECHNIQUE = "stateless exploration with a run-time monitor at every function entry and exit (assembly-level wrappers around each compiled function: stack alignment, callee-saved registers, stack pointer, direction flag, x87 depth, control words; everything not preserved is overwritten on return), over enumerated call families with all choices explored; plus exhaustive preemption: a signal delivered after every instruction, on the function's own stack"
NOTE = "Observations are compared with gcc's as well, so that a value kept where a callee or an interrupt may overwrite it is seen. The families of C01-C16 are taken in part (one batch in so many), the call family in whole."

TY = {"i": ("int", "emit"), "l": ("long", "emit"), "c": ("char", "emit"), "d": ("double", "emitd"), "f": ("float", "emitd"), "L": ("long double", "emitld"), "s": ("struct s@", None), "b": ("struct b@", None), "t": ("struct t@", None)}
DECL = "struct s@ { long a; int b; }; struct b@ { long a[3]; char c; }; struct t@ { double d; int i; };\n"


def val(t, k): return {"i": f"{k}", "l": f"{k}L", "c": f"'{chr(97 + k)}'", "d": f"{k}.5", "f": f"{k}.25f", "L": f"{k}.75L", "s": "vs", "b": "vb", "t": "vt"}[t]
def show(t, e): return {"s": f"emit({e}.a); emit({e}.b);", "b": f"emit({e}.a[0]); emit({e}.a[2]); emit({e}.c);", "t": f"emitd({e}.d); emit({e}.i);"}.get(t) or f"{TY[t][1]}({e});"
def num(t, e): return {"s": f"({e}.a + {e}.b)", "b": f"({e}.a[1] + {e}.c)", "t": f"(long) ({e}.d + {e}.i)"}.get(t) or f"(long) {e}"


SIGS = ["", "i", "ii", "iiiiii", "iiiiiii", "iiiiiiii", "iiiiiiiii", "d", "dddddddd", "ddddddddd", "dddddddddd", "idididid", "iiiiiiid", "L", "LL", "iL", "LiiiiiiiL", "s", "ss", "sss", "ssss", "b", "bb", "ib", "iiiiiib", "iiiiiiib", "t", "tttt", "ttttttttt", "iiiiis", "iiiiiis", "iiiiiiis", "ccccccc", "fffffffff", "csdLbtif", "bL", "Lb", "iiiiiiiL", "iiiiiiiiL", "ddddddddL", "dddddddddLd"]
RETS = "ildfLsbtc"


def calls(full):
    for r in RETS:
        for sg in SIGS:
            ps = ", ".join(f"{TY[t][0]} p{i}" for i, t in enumerate(sg)) or "void"
            args = lambda o: ", ".join(val(t, (i + o) % 9 + 1) for i, t in enumerate(sg))
            sm = " + ".join(num(t, f"p{i}") for i, t in enumerate(sg)) or "3"
            ret = {"s": "r.a = x; r.b = 7;", "b": "r.a[0] = x; r.a[1] = 2; r.a[2] = 3; r.c = 'q';", "t": "r.d = x; r.i = 4;"}.get(r) or "r = x;"
            R = TY[r][0]
            body = "".join(show(t, f"p{i}") + " " for i, t in enumerate(sg))
            f = DECL + f"{R} f@({ps}) {{ long x = {sm}; {R} r; {body} emit(x); {ret} return r; }}\n"
            vs = "struct s@ vs; struct b@ vb; struct t@ vt; vs.a = 11; vs.b = 12; vb.a[0] = 1; vb.a[1] = 2; vb.a[2] = 3; vb.c = 5; vt.d = 2.5; vt.i = 6; "
            # kept across a call: many values, in a function of its own
            keep = f"static {R} g@(int a, long b, double c, int d, long e, int h) {{ {R} r; int u = a + d, v = d * 2; long w = b + e; double z = c * 2; {vs} r = f@({args(0)}); emit(u + v); emit(w); emitd(z); emit(a); emit(h); {show(r, 'r')} return r; }}\n"
            yield Case(f"keep:{r}:{sg}", f"{R} q; q = g@(1, 2, 3.5, 4, 5, 6); {show(r, 'q')} emit(77);", f + keep)
            # as an operand, an argument, a condition, through a pointer
            scal = r in "ildfLc"
            nest = f"int n@(int a, int b, int c, int d, int e, int h, int i, int j) {{ emit(a - b + c - d + e - h + i - j); return a + j; }}\nlong k@(int n) {{ long w = n * 3; {R} (*fp)({ps}) = f@; {vs}"
            if scal:
                e = f"(int) f@({args(0)})"
                nest += f" w += n@(1, {e}, 3, n@(n, 2, 3, 4, 5, 6, {e}, 8), 5, 6, {e}, n) + {e} * n; if ({e} > 5 && n) w += 2; w = n ? w + (long) fp({args(2)}) : w - {e}; while (n-- > 0) w += (int) (*fp)({args(1)});"
            else: nest += f" {{ {R} y = f@({args(0)}); {R} *py = &y; *py = fp({args(1)}); {show(r, 'y')} w += n@(1, 2, (int) {num(r, f'f@({args(3)})') if r != 'b' else 'f@(' + args(3) + ').a[1]'}, 4, 5, 6, 7, n); }}"
            nest += " return w; }\n"
            yield Case(f"nest:{r}:{sg}", "emit(k@(2)); emit(k@(0));", f + nest)


def bodies(full):
    # frames of many sizes around a call, at every parity of pushed registers
    for n in list(range(0, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 4095, 4096, 4097, 65536]:
        for live in (0, 1, 2, 3, 5, 8):
            a = f"char buf[{n}]; " if n else ""
            use = f"buf[0] = 1; buf[{n - 1}] = 3; r += buf[0] + buf[{n - 1}];" if n else ""
            vs = "".join(f"int v{i} = a * {i + 2}; " for i in range(live))
            sm = "".join(f" + v{i}" for i in range(live))
            yield Case(f"frame:{n}:{live}", "emit(o@(4)); emit(o@(-1));", f"int e@(int a) {{ emit(a); return a + 1; }} int o@(int a) {{ int r; {a}{vs} r = e@(a); {use} if (a < 0) return r{sm}; r += e@(r); emit(r{sm}); return r{sm}; }}")
    # returns on several paths, from nested blocks, of every type; empty functions
    for t in "ildfL":
        T, em = TY[t]
        yield Case(f"paths:{t}", "explore(go@, 8);", f"static {T} p@({T} a) {{ if (choose()) return a; {{ {T} b = a + 1; if (choose()) {{ emit(1); return b; }} while (choose()) {{ if (choose()) goto out; b = p@(b); if (choose()) return b * 2; }} switch (pick(3)) {{ case 0: return b; case 1: emit(3); break; default: a = p@(a) + p@(b); }} }} out: emit(4); return a + 2; }}\nstatic void go@(void) {{ {em}(p@(3)); }}")
    yield Case("void", "explore(go@, 6);", "static void a@(void) { } static void b@(int x) { if (x) return; emit(2); } static int c@(void) { int x = 4; b@(x); a@(); b@(0); } static void go@(void) { if (choose()) a@(); else b@(choose()); c@(); while (choose()) a@(), b@(0); }")
    yield Case("recurse", "emit(f@(30, 1)); emit(m@(9));", "long f@(int n, long a) { long k = n * a; return n ? f@(n - 1, k % 1000 + 1) + k : a; } int o@(int n); int m@(int n) { return n ? o@(n - 1) + n : 1; } int o@(int n) { double d = n; return n ? m@(n - 1) + (int) d : 2; }")
    for n in range(0, 14):      # variadic functions, registers and stack
        a = ", ".join(("%d" % i, "%d.5" % i)[i % 2] for i in range(n))
        yield Case(f"va:{n}", f"emit(v@(1, {n}{', ' + a if a else ''})); emit(w@({n}{', ' + a if a else ''}));",
                   "int v@(int k, int n, ...) { va_list ap; int i, r = 0; double d = 0; va_start(ap, n); for (i = 0; i < n; i++) if (i % 2) { d += va_arg(ap, double); emitd(d); } else { r += va_arg(ap, int); emit(r); } va_end(ap); return r + (int) d; } long w@(int n, ...) { va_list ap; long r = n * 2; va_start(ap, n); r += v@(2, 2, 3, 1.5, 4) * n; if (n) r += va_arg(ap, int); va_end(ap); return r; }")
    # conversions and operations that set control words or use fixed registers, around calls
    for nm, e in {"ldint": "(int) (l * 2)", "ldul": "(unsigned long) (l * 1e18L)", "ulld": "(int) ((long double) u / 3)", "dul": "(unsigned long) (d * 4)", "uld": "(double) u", "ldcmp": "l < d ? 3 : 4", "div": "x / y + x % y", "udiv": "(int) (u / 7 + u % 7)", "shift": "x << y | x >> y", "scopy": "(z = q, z.a[1])", "ldchain": "(int) (l * l + l / (l + 1) - l)", "ldcall": "(int) (k@(l) + k@(k@(l) + l))", "ldtern": "(int) (x ? l : k@(l))", "ldstore": "(int) (m = l = m + 1)", "ldvoid": "(l + 1, x)", "ldneg": "(int) -l + !l", "ldlogic": "l && k@(l) || m", "fcond": "d ? 1 : 2"}.items():
        for ctx in ("emit(@E);", "{ int a = @E; emit(a + e@(@E)); }", "if (@E) emit(1); else emit(2);", "@E; emit(5);", "while (x-- > 3) emit(@E);", "emit(h@(1, 2, 3, 4, 5, 6, 7, @E));", "for (; x < 8; @E, x++) emit(x);"):
            if nm == "scopy" and ctx.startswith("if") : continue
            b = ctx.replace("@E", f"({e})")
            yield Case(f"op:{nm}:{ctx[:8]}", "t@_(5, 2, 3UL, 1.5, 2.25L); emit(9);", "struct b@ { long a[5]; }; static int e@(int a) { emit(a); return a * 2; } static int h@(int a, int b, int c, int d, int e, int f, int g, long h) { return a - b + c - d + e - f + g - (int) h; } static long double k@(long double a) { emitld(a); return a + 1; }\n"
                       f"static void t@_(int x, int y, unsigned long u, double d, long double l) {{ long double m = 3; struct b@ z, q; int i; for (i = 0; i < 5; i++) z.a[i] = q.a[i] = i; {b} emitld(m); emitld(l); }}")
    # struct copies of every size, between calls, and struct arguments and results
    for n in list(range(1, 34)) + [40, 48, 63, 64, 65, 128, 200]:
        yield Case(f"copy:{n}", "go@(); emit(1);", f"struct z@ {{ char c[{n}]; }}; static struct z@ gg@; static struct z@ mk@(int k) {{ struct z@ r; int i; for (i = 0; i < {n}; i++) r.c[i] = i * k + 1; return r; }} static int sum@(int k, struct z@ a, struct z@ b) {{ int i, r = k; for (i = 0; i < {n}; i++) r = r * 3 + a.c[i] - b.c[i]; return r; }}\n"
                   f"static void go@(void) {{ int k = 5; struct z@ a, b, *p = &b; a = mk@(k); *p = a; gg@ = *p; emit(sum@(k, a, gg@)); emit(sum@(1, mk@(2), mk@(3))); emitb(&gg@, {n}); emit(k); }}")


class Instrumented(Engine):
    """Every function of wcc's output is entered and left through the monitor."""

    def __init__(self, *a, **k):
        super().__init__(*a, discipline=True, **k)
        w = os.path.join(core.scratch(), "wrap.o")
        if not os.path.exists(w):
            r = run(["as", os.path.join(core.RT, "wrap.s"), "-o", w])
            if r.rc: raise core.CheckError(r.err)
        self.wrap = w
        self.nfun = 0
        self.stepped = False

    def compile_wcc(self, d, src, tag="w", flags=None):
        o, why = super().compile_wcc(d, src, tag, flags)
        if not o: return o, why
        s = read(os.path.join(d, tag + ".s"))
        # a symbol is a function if it has the type or a call goes to it
        funs = set(re.findall(r"(?m)^\s*\.type\s+([\w.$]+)\s*,\s*[@%]function", s)) | set(re.findall(r"(?m)\bcallq?\s+([A-Za-z_]\w*)(?:@PLT)?\s*$", s)) | set(re.findall(r"(?m)^t\d+(?=:)", s))
        funs = {f for f in funs if re.search(r"(?m)^%s:" % re.escape(f), s)}
        def sub(m):
            f = m.group(1)
            if f not in funs: return m.group(0)
            return f"{f}:\n    leaq .Lname.{f}(%rip), %r10\n    leaq .Lreal.{f}(%rip), %r11\n    jmp mc_wrap\n.Lreal.{f}:"
        s = re.sub(r"(?m)^([A-Za-z_][\w.$]*):", sub, s)
        s += "\n    .section .rodata\n" + "".join(f".Lname.{f}: .string \"{f}\"\n" for f in sorted(funs))
        p = write(os.path.join(d, tag + "i.s"), s)
        r = run(["as", p, "-o", o], timeout=60)
        if r.rc: raise core.CheckError("instrumented assembly: " + r.err[:500])
        self.nfun = len(funs)
        return o, None

    def link(self, d, o, tag, n):
        keep = self.objs
        if tag.startswith("w") or tag.startswith("s"): self.objs = [*keep, self.wrap]
        try: return super().link(d, o, tag, n)
        finally: self.objs = keep

    def execute(self, exe, n, only=None, full=False):
        os.environ.pop("MC_STEP", None)
        core.ENV.pop("MC_STEP", None)
        out = super().execute(exe, n, only, full)
        if os.path.basename(exe).startswith("w") and only is None and self.steps:
            core.ENV["MC_STEP"] = "1"
            try: st = super().execute(exe, n, only, full)
            finally: core.ENV.pop("MC_STEP", None)
            self.stepped = True
            for i in out:
                if i not in st or out[i][:3] != st[i][:3] or st[i][3] & 0x1000:
                    if out[i][0] == 0: out[i] = (26 if i not in st else st[i][0] or 5, *out[i][1:5], out[i][5] + " (when interrupted after every instruction)")
        elif os.path.basename(exe).startswith("w") and self.steps:
            core.ENV["MC_STEP"] = "1"
            try: st = super().execute(exe, n, only, full)
            finally: core.ENV.pop("MC_STEP", None)
            for i in out:
                if out[i][0] == 0 and (i not in st or out[i][:3] != st[i][:3] or st[i][3] & 0x1000): out[i] = st.get(i, (26, "", 0, 0, 0, ""))
        return out

    steps = True


def main():
    rep = Report("C30", LEVEL, "case x path x function activation; all observations, and the monitor's verdict at each entry and exit. Non-trivial: distinct sequences of observations", ["the caller's frame is judged around the outermost call; inner ones through the values observed"])
    full = core.THOROUGH
    eng = Instrumented(rep, prologue="#include <stdarg.h>\n")
    own = list(calls(full)) + list(bodies(full))
    eng.go(own, batch=20)
    if full:
        for fl in (["-fPIC"], c07.BASE, c07.BASE[:1]):
            if rep.fails: break
            e = Instrumented(rep, prologue="#include <stdarg.h>\n", wcc_flags=fl)
            e.go([Case(" ".join(fl) + " " + c.key, c.body, c.decls) for c in own], batch=20)
    if not rep.fails:
        # the pressure family and a part of the others
        eng2 = Instrumented(rep)
        pc = list(c07.pressure(full))
        eng2.go(pc if full else pc[::7], batch=20)
        for m, every in c07.FAMILIES.items():
            if rep.fails: break
            mod = importlib.import_module("mc.checks." + m)
            c07.Recorder.taken = []
            mod.Engine, mod.Report = c07.Recorder, c07.Quiet
            try: mod.main()
            finally: mod.Engine, mod.Report = Engine, Report
            for e, cases, batch in c07.Recorder.taken:
                every2 = max(1, every // 2) if not full else max(1, every // 8)
                ch = [cases[i:i + batch] for i in range(0, len(cases), batch)][::every2]
                if not ch: continue
                ie = Instrumented(rep, prologue=e.prologue, wcc_flags=e.wcc_flags, ref_flags=e.ref_flags, pre=e.pre, link_flags=e.link_flags)
                ie.steps = full and m in ("c04", "c05", "c12")
                ie.objs, ie.aux_src = list(e.objs), e.aux_src
                ie.go([Case(m.upper() + ":" + c.key, c.body, c.decls) for x in ch for c in x], batch=batch)
    return rep.finish()
