"""C07: the program families of the other checks and one of register pressure are compiled under the combinations of the options that
steer code generation; each distinct output runs, and must observe what the one of the default options does."""
import hashlib, importlib, itertools, os, time
from .. import core
from ..core import Report, read, run, write
from ..diff import Case, Engine

LEVEL = "exploration"
TECHNIQUE = "exhaustive product of code-generation options over enumerated program families, including every register pressure from 1 to 24 around every kind of operation; each distinct assembly output is executed, with all the choices of a program explored, and compared with the one of the default options"
NOTE = "The default options are compared with gcc and clang by the other checks. The quick tier takes every option by itself and several combinations; the thorough tier takes the full product for the pressure family and more of the larger families of the thorough tiers."

BASE = ["-fno-live-range-coalescing", "-fspill-furthest-liveness-end", "-fno-dont-spill-short-live-ranges", "-fno-optimize-arithmetic", "-fno-vreg-renumbering"]


def configs(full):
    if full:
        for r in range(len(BASE) + 1):
            for c in itertools.combinations(BASE, r):
                yield list(c)
        yield from (["-fPIC"], ["-g"], ["-O2"], ["-O0", "-g"], ["-fPIC", *BASE], ["-g", *BASE], ["-fPIC", BASE[0]], ["-fPIC", BASE[1], BASE[2]])
    else:
        yield []
        for b in BASE: yield [b]
        yield from (BASE, BASE[:3], [BASE[0], BASE[4]], ["-fPIC"], ["-fPIC", *BASE], ["-g", "-O2"])


# ---- register pressure
OPS = {
    "none": "x = x + 1;", "div": "x = x / (y | 1);", "mod": "x = x % (y | 1);", "udiv": "x = (unsigned) x / ((unsigned) y | 1);", "shl": "x = x << (y & 7);", "shr": "x = x >> (y & 7);", "mul": "x = x * y;",
    "mulc": "x = x * 8 + y / 4 + y % 16;", "call": "x = f@(x, y);", "call6": "x = g@(x, y, x + 1, y + 1, x + 2, y + 2, x + 3, y + 3);", "fcall": "x = (int) h@(x, y);", "index": "x = arr@[y & 3] + arr@[x & 3];", "store": "arr@[x & 3] = y; x = arr@[1];",
    "ptr": "{ int *p = &arr@[y & 1]; p++; *p += x; x = *p--; x += *p; }", "cmp": "x = (x < y) + (x == y) * 2;", "tern": "x = y > 3 ? x : -x;", "logic": "x = (x && y) || (x > y);", "conv": "x = (char) x + (short) y + (unsigned char) (x + y);",
    "cvt": "x = (int) ((double) x * 1.5 + (float) y);", "ld": "{ long double l = x; l = l * 2 + y; x = (int) l; }", "struct": "{ struct s@ s, t; s.a = x; s.b = y; t = s; x = t.a + (int) t.b; }", "sret": "{ struct s@ s; s = k@(x, y); x = s.a + (int) s.b; }", "loop": "{ int i; for (i = 0; i < 3; i++) x += y * i; }",
    "switch": "switch (y & 3) { case 0: x++; break; case 1: x += 2; case 2: x += 3; break; default: x = y; }", "assignop": "x += y; x -= 3; x ^= y; x |= 1; x <<= 1; x %= 1000;", "inc": "x += y++ - --y;", "bits": "{ struct { int a : 5; int b : 11; } z; z.a = x & 15; z.b = y & 255; x = z.a + z.b; }", "long": "x = (int) (((long) x << 20) + y >> 10);", "addr": "{ int q = x; int *r = &q; *r = *r + y; x = q; }",
}
DECL = """struct s@ { int a; double b; }; static int arr@[4] = {3, 1, 4, 1}; int id@(int x) { return x; } double idd@(double x) { return x; }
int f@(int a, int b) { return a * 3 - b; } int g@(int a, int b, int c, int d, int e, int f, int g, int h) { return a - b * 2 + c * 3 - d * 4 + e * 5 - f * 6 + g * 7 - h * 8; }
double h@(int a, double b) { return a + b * 0.5; } struct s@ k@(int a, double b) { struct s@ r; r.a = a; r.b = b; return r; }
"""


def pressure(full):
    for op, code in OPS.items():
        for kind in ("i", "d", "m"):
            for n in (range(1, 25, 2) if full else (1, 4, 6, 8, 11, 14, 17, 20, 24)):
                tys = ["double" if kind == "d" or kind == "m" and i % 2 else ("int", "long", "char", "unsigned short")[i % 4] for i in range(n)]
                b = "int x = id@(5), y = id@(9); " + "".join(f"{t} v{i} = {'idd' if t == 'double' else 'id'}@({i + 2}); " for i, t in enumerate(tys))
                b += "\n{ int lp; for (lp = 0; lp < 2; lp++) { " + code + " " + " ".join(f"v{i} += x & {i + 3};" for i in range(0, n, 3)) + " } } if (y > 100) { " + code + " }\n"
                b += "emit(x); emit(y); " + " ".join(f"emit{'d' if t == 'double' else ''}(v{i});" for i, t in enumerate(tys)) + " emit(" + " + ".join(f"(long) v{i} * {i + 1}" for i in range(n)) + "); "
                yield Case(f"pressure:{op}:{kind}:{n}", b, DECL)
    # every conversion and every operation of every type, with most registers taken, the operands themselves among the values kept
    tys = {"signed char": (-7, 100), "unsigned char": (200, 3), "short": (-300, 7), "unsigned short": (65000, 2), "int": (-70000, 9), "unsigned int": (4000000000, 3), "long": (-5000000000, 11), "unsigned long": (13835058055282163712, 5), "float": (2.5, -3), "double": (3e9, -1.25), "long double": (9.5, -2)}
    big = {"float": 1.5e19, "double": 1.25e19, "long double": 1.3e19}
    em = lambda t: {"float": "emitf", "double": "emitd", "long double": "emitld"}.get(t, "emit")
    def lit(t, v): return f"({t}) {v}" + ("UL" if v > 2 ** 31 and t not in big else ".0L" if t in big and isinstance(v, int) else "L" if t in big else "")
    for n in ((2, 5, 9, 13, 17, 21) if full else (5, 17)):
        ks = "".join(f"long v{i} = id@({i + 2}); " for i in range(n)) + "".join(f"double w{i} = idd@({i + 2}); " for i in range(n))
        use = " ".join(f"v{i} += x; w{i} += 2;" for i in range(0, n, 2))
        tail = " ".join(f"emit(v{i}); emitd(w{i});" for i in range(n))
        for ta, va in tys.items():
            pre = f"{ta} a = {lit(ta, va[0])}, b = {lit(ta, va[1])}, *pa = &b, c; int x = id@(3), lp; {ks}\nfor (lp = 0; lp < 2; lp++) {{ {use} c = a; "
            post = f" {em(ta)}(c); c = b; a = b; b = c; }} {tail} {em(ta)}(a); {em(ta)}(*pa);"
            conv = " ".join(f"{{ {tb} r = ({tb}) {'pa[0]' if k % 2 else 'a'}, s = c; {em(tb)}(r); c = c + ({ta}) r; {em(tb)}(s); }}" for k, tb in enumerate(tys) if not (ta in big and tb not in big and (tb != "unsigned long" and abs(va[0]) > 2e9 or "unsigned" in tb or "char" in tb or "short" in tb)))
            yield Case(f"convp:{ta}:{n}", pre + conv.replace("c = c + ", "c = c ^ " if ta not in big else "c = c + ") + post, DECL)
            ops = ["+", "-", "*", "/", "<", ">=", "==", "&&", "||"] + (["%", "<<", ">>", "&", "|", "^"] if ta not in big else [])
            for o in ops:
                rhs = "(b & 7 | 1)" if ta not in big and o in "/ % << >>" else "b"
                lhs = "(a & 1023)" if ta not in big and o in ("<<", "*", "+", "-") else "a"
                e = f"({ta}) ({lhs} {o} {rhs})"
                asg = f" b {o}= a & 3 | 1;" if o in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^") and ta not in big else ""
                yield Case(f"binp:{o}:{ta}:{n}", pre + f"c = {e};{asg.replace('b <<=', 'b >>=')} {em(ta)}(c); c = ({ta}) (c + ({ta}) {lit(ta, 3)} {o} 2); if (a {o} pa[0]) {em(ta)}(c); x = !(b {'<' if o in '<>' else o} a) + x; c = x ? c : b;".replace("/ 2", "/ 2") .replace(f"if (a {o} pa[0])", f"if ({lhs} {o} (pa[0] ? pa[0] : 1))" if o not in ("<<", ">>") else f"if ({lhs} {o} (pa[0] & 7))").replace(f"!(b {o} a)", f"!(b {o} (a ? a : 1))" if o not in ("<<", ">>") else f"!((b & 15) {o} 2)") + post, DECL)
        for t in big:
            for tb in ("unsigned long", "float", "double", "long double"):
                yield Case(f"bigp:{t}:{tb}:{n}", f"{t} a = {big[t]}L, c = 2; int x = id@(3), lp; {ks} for (lp = 0; lp < 3; lp++) {{ {use} {{ {tb} r = ({tb}) a; {em(tb)}(r); c = c + ({t}) r; a = a / 3; }} }} {tail} {em(t)}(c);", DECL)
        for t in ("int *", "char *", "long *"):
            yield Case(f"ptrp:{t}:{n}", f"long arr[40]; {t} p = ({t}) (arr + 4); {t} q; {t} *pp = &q; int x = id@(3), lp; {ks} for (lp = 0; lp < 40; lp++) arr[lp] = lp * 77; for (lp = 0; lp < 2; lp++) {{ {use} q = p + x; emit(*q); emit(q - p); *q = x; q[lp] += 3; p++; emit(p < q); emit(*p++); emit(*--q); emit((*pp)[x]); q += x; q -= lp; emit(q[-lp]); *pp = q - 1; emit(*q); }} {tail}", DECL)
    # wide expressions: n values live in one expression
    for sh in ("left", "right", "bal"):
        for n in range(2, 41 if full else 29, 2 if full else 3):
            for ty in ("int", "long", "double", "float", "unsigned char"):
                e = [f"a[{i}]" if i % 3 else f"f@(a[{i}], {i})" for i in range(n)]
                ops = ["+", "-", "*"] if ty in ("double", "float") else ["+", "-", "^", "*", "&", "|"]

                def tree(l, d=0):
                    if len(l) == 1: return l[0]
                    o = ops[(len(l) + d) % len(ops)]
                    k = 1 if sh == "right" else len(l) - 1 if sh == "left" else len(l) // 2
                    return f"({tree(l[:k], d + 1)} {o} {tree(l[k:], d + 1)})"
                em = "emitd" if ty in ("double", "float") else "emit"
                yield Case(f"wide:{sh}:{ty}:{n}", f"{ty} a[{n}]; int i; for (i = 0; i < {n}; i++) a[i] = i % 7 + 1; {em}({tree(e)});", "static %s f@(%s x, int y) { return x + y; }" % (ty, ty))


# ---- the families of the other checks
class Recorder(Engine):
    taken = []

    def go(self, cases, batch=150): Recorder.taken.append((self, list(cases), batch))


class Quiet(Report):
    def finish(self): return 0


FAMILIES = {"c01": 31, "c02": 37, "c04": 23, "c05": 64, "c06": 16, "c11": 10, "c12": 29, "c13": 23, "c14": 23, "c16": 7}     # quick: one in so many batches of a family


def families(full):
    for m, every in FAMILIES.items():
        mod = importlib.import_module("mc.checks." + m)
        Recorder.taken = []
        mod.Engine, mod.Report = Recorder, Quiet
        try: mod.main()
        finally: mod.Engine, mod.Report = Engine, Report
        for eng, cases, batch in Recorder.taken:
            chunks = [cases[i:i + batch] for i in range(0, len(cases), batch)]
            for i, ch in enumerate(chunks):
                if i % (every * 3 if full else every) == 0: yield eng, [Case(m.upper() + ":" + c.key, c.body, c.decls) for c in ch]


def main():
    full = core.THOROUGH
    rep = Report("C07", LEVEL, "batch of programs x combination of options. Non-trivial: distinct sequences of observations", ["the default options' output is right (C01-C16)"])
    own = Engine(rep)
    jobs = []
    pc = list(pressure(full))
    for c in (pc[0], pc[len(pc) // 2], pc[-1]): rep.sample((c.key + ": " + " ".join(c.body.split()))[:400])
    jobs += [(own, pc[i:i + 24], list(configs(full))) for i in range(0, len(pc), 24)]
    jobs += [(e, cs, list(configs(False))) for e, cs in families(full)]

    def compile_(eng, d, src, flags, tag):
        """(.s text without debug lines, None) or (None, reason)"""
        s = os.path.join(d, tag + ".s")
        r = run([eng.wcc, *eng.wcc_flags, *flags, "-S", src, "-o", s], timeout=120, cpu=60)
        if r.timeout or r.rc in (-9, -24): return None, "wcc does not terminate"
        if r.rc: return None, f"wcc failed ({r.rc}): " + (r.err.strip() or r.out.strip())[-300:]
        return s, None

    def exe(eng, d, s, tag, n):
        o = s[:-2] + ".o"
        a = run(["as", s, "-o", o], timeout=60)
        if a.rc: return None, "as rejected wcc's output: " + a.err.strip()[:300]
        return eng.link(d, o, tag, n)

    def one(job):
        t0 = time.time()
        r = one_(job)
        if os.environ.get("MC_PROF"): open("/tmp/prof", "a").write(f"{job[1][0].key[:6]} {time.time() - t0:.2f} {r[2]} {r[3]} {r[4]}\n")
        return r

    def one_(job):
        eng, cases, cfgs = job
        d = core.subdir("o")
        fails, hashes = [], set()
        distinct, runs = {}, 0
        paths = trans = 0
        try:
            src = write(os.path.join(d, "c.c"), eng.source(cases))
            s, why = compile_(eng, d, src, [], "base")
            e, why = exe(eng, d, s, "base", len(cases)) if s else (None, why)
            if not e: return [("base", cases[0].key, f"the default options do not compile the batch: {why}", {})], hashes, 0, 0, 0, 0
            base = eng.execute(e, len(cases))
            paths, trans = eng.last_counts[0], eng.last_counts[1]
            for v in base.values(): hashes.add(v[1])
            distinct[hashlib.sha256(read(s).encode("latin-1")).digest()] = base
            for k, cfg in enumerate(cfgs):
                if not cfg: continue
                tag = f"k{k}"
                s, why = compile_(eng, d, src, cfg, tag)
                runs += 1
                x = None
                if s:
                    h = hashlib.sha256(read(s).encode("latin-1")).digest()
                    if h not in distinct:
                        x, why = exe(eng, d, s, tag, len(cases))
                        distinct[h] = eng.execute(x, len(cases)) if x else None
                        os.unlink(s)
                    res = distinct[h]
                else: res = None
                name = " ".join(cfg)
                if res is None:
                    # find the cases
                    for i, c in enumerate(cases):
                        one_src = write(os.path.join(d, "one.c"), eng.source([c]))
                        s1, why1 = compile_(eng, d, one_src, cfg, "one")
                        x1, why1 = exe(eng, d, s1, "one", 1) if s1 else (None, why1)
                        if not x1: fails.append((name, c.key, why1, files(eng, c, cfg)))
                        if len(fails) > 6: break
                    if not fails: fails.append((name, cases[0].key + " (batch)", why, {"case.c": eng.source(cases)}))
                    continue
                for i, c in enumerate(cases):
                    a, b = res.get(i), base.get(i)
                    if b is None or b[0]: continue      # C01-C16's
                    if a is None or a[:3] != b[:3]:
                        detail = "differs from the default options"
                        if len(fails) < 8:
                            if x is None:
                                x = exe(eng, d, compile_(eng, d, src, cfg, tag)[0], tag, len(cases))[0]
                            fa, fb = eng.execute(x, len(cases), i, True).get(i), eng.execute(e, len(cases), i, True).get(i)
                            detail += ": " + eng.describe(fa, fb)
                        fails.append((name, c.key, detail, files(eng, c, cfg)))
                if len(fails) > 20: break
            return fails, hashes, runs, len(distinct), paths, trans
        finally:
            core.rmtree(d)

    def files(eng, c, cfg):
        f = eng.files(c)
        f["run.sh"] = f["run.sh"].replace("} " + " ".join(eng.wcc_flags) + " -S", "} " + " ".join([*eng.wcc_flags, *cfg]) + " -S", 1)
        return f

    n = 0
    jobs.sort(key=lambda j: -len(j[2]))
    for fails, hashes, runs, distinct, paths, trans in core.pmap(one, jobs, chunksize=1, stop=lambda: n >= own.maxfail):
        rep.evals += runs
        rep.paths += paths * max(1, distinct)
        rep.transitions += trans * max(1, distinct)
        rep.outcomes |= hashes
        rep.extra["distinct_outputs"] = rep.extra.get("distinct_outputs", 0) + distinct
        for name, key, detail, fl in fails:
            if name == "base": raise core.CheckError(f"{key}: {detail}")
            if rep.fail(f"{name}:{key}", detail, fl): n += 1
    rep.exhaustive = n < own.maxfail
    return rep.finish()
