"""C25: all command lines of a bounded language against a model of the driver: which stages run, on what, which files exist afterwards, what status."""
import itertools, os, re
from .. import core
from ..core import Report, read, run, write

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of a bounded language of command lines (stage options x -o x input lists x option position; all ordered pairs and triples of the other options), each run in a scratch directory and judged by an explicit model of the driver: exit status, exact set of files left (every file the process creates is recorded by a preloaded library), and what the results do once gcc completes the build"
NOTE = "The expected output of each program is computed by the model from the -D, -I, -L and -l options and the input list alone, not from another run of wcc."

A = '''int printf(const char *, ...);
#include "inc.h"
#include <sysinc.h>
#ifndef M
#define M -1
#endif
#ifdef SQ
#define N SQ(3)
#else
#define N 0
#endif
#ifndef Q
#define Q "none"
#endif
int helper(void);
extern int other;
int main(void) { printf("%d %d %d %d %s %d\\n", M, N, INCV, SYSV, Q, helper() + other); return 3; }
'''
B = "int other = 100;\n#ifdef M\nint helper(void) { return 2; }\n#else\nint helper(void) { return 1; }\n#endif\n"
BS = "\t.data\n\t.globl other\nother:\t.long 100\n\t.text\n\t.globl helper\nhelper:\tmovl $7, %eax\n\tret\n\t.section .note.GNU-stack,\"\",@progbits\n"
BO = "int other = 100;\nint helper(void) { return 9; }\n"
BAD = "int f(void) { return undeclared; }\n"
PRE = "#error never\n"
ONLY = "extern int other;\n"       # for a.c with a library: only other is missing

FILES = {"a.c": A, "b.c": B, "b.s": BS, "bad.c": BAD, "pre.c": PRE, "o.c": "int other = 100;\n", "sub/a.x.c": A.replace('"inc.h"', '"../inc.h"'), "inc.h": "#define INCV 0\n", "d.d/b.c": B, "bad.s": "\tnonsense\n",
         "sp ace.c": B, "q'uote.c": B, "i1/sysinc.h": "#define SYSV 1\n", "i2/sysinc.h": "#define SYSV 2\n", "i2/inc.h": "#define INCV 2\n"}

# input lists: names, what helper gives (None: link error), does the C part fail
LISTS = {
    "a b.c": (["a.c", "b.c"], "src"), "b a": (["b.c", "a.c"], "src"), "a b.s": (["a.c", "b.s"], 7), "b.s a": (["b.s", "a.c"], 7), "a b.o": (["a.c", "b.o"], 9), "b.o a": (["b.o", "a.c"], 9),
    "a": (["a.c"], None), "b": (["b.c"], None), "b.s": (["b.s"], None), "b.o": (["b.o"], None), "a b b": (["a.c", "b.c", "b.s"], None), "sub": (["sub/a.x.c", "d.d/b.c"], "src"), "sub o": (["sub/a.x.c", "b.o"], 9),
    "space": (["a.c", "sp ace.c"], "src"), "quote": (["q'uote.c", "a.c"], "src"),
    "bad": (["bad.c"], "err"), "a bad": (["a.c", "bad.c"], "err"), "bad a": (["bad.c", "a.c", "b.c"], "err"), "pre": (["pre.c"], "pre"), "a pre": (["a.c", "pre.c", "b.c"], "pre"),
    "missing": (["nothere.c"], "pre"), "a missing": (["a.c", "nothere.c"], "pre"), "bad.s": (["bad.s"], "aserr"), "a bad.s": (["a.c", "b.c", "bad.s"], "aserr"), "missing.s": (["nothere.s"], "aserr"), "missing.o": (["a.c", "b.c", "nothere.o"], None), "none": ([], "none"),
}
STAGES = {"": "link", "-c": "c", "-S": "S", "-E": "E", "-c -S": "S", "-S -c": "S", "-E -c": "E", "-S -E": "E", "-c -c": "c", "-S -S": "S"}
OUTS = [None, "out", "out.o", "out.s", "d.d/out", "sp out", "a.s"]

# the other options: (arguments, effect)
OPTS = {
    "-DM": ["-DM"], "-DM=5": ["-DM=5"], "-D M=6": ["-D", "M=6"], "-D M": ["-D", "M"], "-DM=": None, "-DQ": ['-DQ="a b"'], 
    "-DX": ["-DX=1"], "-Ii1": ["-Ii1"], "-Ii2": ["-Ii2"], "-I i1": ["-I", "i1/"], "-I i2": ["-I", "i2"], "-Imissing": ["-Imissing"], "-g": ["-g"], "-fPIC": ["-fPIC"], "-O2": ["-O2"], "-v": ["-v"], "pf": ["--print-filenames"], "heap": ["--print-heap-usage"],
    "leak": ["--fail-on-leaked-memory"], "-Werror": ["-Werror"], "-Ll1": ["-Ll1"], "-L l2": ["-L", "l2"], "-lh": ["-lh"], "-l h": ["-l", "h"], "-lother": ["-lother"], "-Wl": ["-Wl,--defsym=unusedsym=5"], "tri": ["--trigraphs"], "prc": ["--prc"], "fno": ["-fno-optimize-arithmetic"],
}
OPTS = {k: v for k, v in OPTS.items() if v}


def main():
    rep = Report("C25", LEVEL, "command line; exit status, files and the behaviour of the results compared with the model of the driver", ["as, ld and gcc work", "the file names end in .c, .s or .o"])
    wcc = os.path.join(core.build("plain"), "wcc")
    so = os.path.join(core.scratch(), "faults.so")
    r = run(["gcc", "-shared", "-fPIC", "-w", "-O1", "-o", so, os.path.join(core.RT, "faults.c"), "-ldl"])
    if r.rc: raise core.CheckError(r.err)
    proto = core.subdir("proto")
    for n, t in FILES.items():
        os.makedirs(os.path.dirname(os.path.join(proto, n)), exist_ok=True)
        write(os.path.join(proto, n), t)
    for l, v in (("l1", 10), ("l2", 20)):
        os.makedirs(os.path.join(proto, l))
        write(os.path.join(proto, "t.c"), f"int helper(void) {{ return {v}; }}\n")
        run(["gcc", "-c", "t.c", "-o", "t.o"], cwd=proto); run(["ar", "rcs", f"{l}/libh.a", "t.o"], cwd=proto)
        write(os.path.join(proto, "t.c"), f"int other = {v * 10};\n")
        run(["gcc", "-c", "t.c", "-o", "t.o"], cwd=proto); run(["ar", "rcs", f"{l}/libother.a", "t.o"], cwd=proto)
    os.remove(os.path.join(proto, "t.c")); os.remove(os.path.join(proto, "t.o"))
    write(os.path.join(proto, "t.c"), BO); run(["gcc", "-c", "t.c", "-o", "b.o"], cwd=proto); os.remove(os.path.join(proto, "t.c"))
    # what stands in for the missing halves when an output is judged by itself
    stand = core.subdir("stand")
    write(os.path.join(stand, "amain.c"), '#include <stdio.h>\nextern int helper(void), other;\nint main(void) { printf("H %d\\n", helper() + other); return 3; }\n')
    write(os.path.join(stand, "helper.c"), "int helper(void) { return 50; } int other = 500;\n")
    for n in ("amain", "helper"): run(["gcc", "-c", n + ".c"], cwd=stand)

    def listing(d):
        return {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs}

    def model(opts):
        """Values of the macros and libraries: an option list's meaning."""
        M, sq, q, inc, libs, paths, bad = None, 0, "none", [], [], [], False
        for o in opts:
            if o in ("-DM", "-D M"): new = "1"
            elif o == "-DM=5": new = "5"
            elif o == "-D M=6": new = "6"
            elif o == "-DQ": q = "a b"; continue
            elif o in ("-Ii1", "-I i1"): inc.append(1); continue
            elif o in ("-Ii2", "-I i2"): inc.append(2); continue
            elif o in ("-Ll1",): paths.append(1); continue
            elif o in ("-L l2",): paths.append(2); continue
            elif o in ("-lh", "-l h"): libs.append("h"); continue
            elif o == "-lother": libs.append("other"); continue
            else: continue
            if M is not None and M != new: bad = True         # redefinition: either an error, or not judged
            M = new
        return M, sq, q, (inc or [None])[0], libs, paths, bad

    def expect_main(mod, helper):
        M, sq, q, sysv = mod[:4]
        return f"{M or -1} {sq} 0 {sysv} {q} {helper}\n"

    def judge(job):
        stage, out, lst, opts, order, stale = job
        names, kind = LISTS[lst]
        mode = STAGES[stage]
        mod = model(opts)
        d = os.path.join(core.subdir("x"), "w")
        import shutil
        shutil.copytree(proto, d)
        if stale:
            for n in ("a.s", "a.o", "a.out", "out", "b.o~"):
                if out is None or n != out: write(os.path.join(d, n), "stale\n")
            if out: write(os.path.join(d, out), "stale\n" * 20000)
        before = listing(d)
        o = [x for k in opts for x in OPTS[k]]
        st = stage.split()
        oo = ["-o", out] if out else []
        args = {0: st + o + oo + names, 1: names + o + st + oo, 2: oo + names[:1] + st + o + names[1:]}[order]
        rec = os.path.join(os.path.dirname(d), "created")
        try:
            r = run([wcc, *args], cwd=d, timeout=60, env={"LD_PRELOAD": so, "MCF_NAMES": rec})
            after = listing(d)
            created = {l for l in read(rec).splitlines()} if os.path.exists(rec) else set()
            if r.timeout: return job, "hangs"
            if r.rc < 0: return job, f"dies from signal {-r.rc}"
            ext = {"c": ".o", "S": ".s"}.get(mode)
            cfiles = [n for n in names if n.endswith(".c")]
            ins = {"c": [n for n in names if not n.endswith(".o")], "S": cfiles, "E": cfiles, "link": names}[mode]
            if mode == "link": outs = {out or "a.out"}
            elif mode == "E": outs = {out} if out else set()
            else: outs = {out} if out else {n[:-2] + ext for n in ins}
            if mode != "link" and not ins: outs = set()
            # files
            left = after - before - outs
            if left: return job, f"leaves {sorted(left)} behind"
            for c in created:
                p = os.path.join(d, c)
                if os.path.exists(p) and os.path.relpath(p, d) not in outs: return job, f"leaves {c} behind"
            if before - after - outs: return job, f"removes {sorted(before - after - outs)}"
            for n in before - outs:
                if n in FILES and read(os.path.join(d, n)) != FILES[n] or stale and n not in FILES and n in ("a.s", "a.o", "a.out", "out") and n != out and read(os.path.join(d, n)) != "stale\n": return job, f"changes {n}"
            # status
            needs_sys = any(n.endswith("a.c") or n.endswith("a.x.c") for n in names)
            fails = kind == "none" or kind == "pre" and True or kind == "err" and mode != "E" or kind == "aserr" and mode in ("c", "link") or (mode != "link" and out and len(names) > 1)
            if kind == "aserr" and mode in ("S", "E") and not cfiles: fails = fails or False
            if needs_sys and mod[3] is None: fails = True
            if mode == "link" and not fails:
                have_h = kind not in (None, "err", "pre", "aserr")
                if kind is None:
                    have = {"a": lst in ("a", "a b b", "missing.o"), "h": lst in ("b", "b.s", "b.o", "a b b", "missing.o")}
                    lib = set(mod[4]) if mod[5] else set()
                    if mod[4] and (set(mod[4]) - {"h", "other"} or not mod[5]): fails = True
                    elif lst == "a" and lib >= {"h", "other"}: fails = False
                    else: fails = True
                elif mod[4] and not mod[5]: fails = True
            if mod[6]: return job, None if r.rc else None
            if bool(r.rc) != bool(fails): return job, f"exit status {r.rc}, expected {'failure' if fails else 'success'}: {(r.err + r.out)[-200:]}"
            if fails:
                if not (r.err + r.out).strip(): return job, "fails without a diagnostic"
                if mode == "link" and os.path.exists(os.path.join(d, out or "a.out")) and (out or "a.out") not in before: return job, "fails but leaves an executable"
                return job, None
            for n in outs:
                if not os.path.exists(os.path.join(d, n)): return job, f"does not write {n}"
                if stale and open(os.path.join(d, n), "rb").read(6) == b"stale\n": return job, f"does not overwrite {n}"
            # behaviour
            bsrc = 2 if mod[0] else 1
            def helper(n): return (bsrc if n.endswith(".c") else 7 if n.endswith(".s") else 9) + 100
            def check(cmd, want, what):
                x = run(["gcc", "-w", *cmd, "-o", "judge"], cwd=d, timeout=60)
                if x.rc: return f"{what}: gcc rejects it: {x.err[-200:]}"
                return execute("./judge", want, what)
            def execute(prog, want, what):
                x = run([prog], cwd=d, timeout=10)
                if (x.rc, x.out) != (3, want): return f"{what}: gives {x.out!r} and {x.rc}, expected {want!r} and 3"
            if mode == "link":
                if kind is None:
                    h = {1: 10, 2: 20}[mod[5][0]] + {1: 100, 2: 200}[mod[5][0]]
                else: h = (bsrc if kind == "src" else kind) + 100
                return job, execute(os.path.join(d, out or "a.out"), expect_main(mod, h), "the program")
            for n in ins:
                is_main = n.endswith("a.c") or n.endswith("a.x.c")
                want = expect_main(mod, 550) if is_main else f"H {helper(n)}\n"
                st_o = os.path.join(stand, "helper.o" if is_main else "amain.o")
                if n in ("bad.c", "o.c") or mode == "c" and lst == "a b b" and n != "a.c": continue
                if mode == "E":
                    if out: text = read(os.path.join(d, out))
                    elif len(ins) == 1: text = r.out
                    else:
                        # the outputs follow each other
                        parts = re.split(r'(?m)^(?=# 1 "(?:%s)"$)' % "|".join(map(re.escape, ins)), r.out)
                        parts = [p for p in parts if p.startswith(f'# 1 "{n}"')]
                        text = parts[0] if parts else ""
                    write(os.path.join(d, "judge.c"), "\n".join(l for l in text.splitlines() if not l.startswith("[")) + "\n")
                    bad = check(["judge.c", st_o], want, f"-E of {n}")
                elif mode == "S": bad = check(["-x", "assembler", out or n[:-2] + ".s", "-x", "none", st_o], want, f"assembly of {n}")
                else:
                    shutil.copy(os.path.join(d, out or n[:-2] + ".o"), os.path.join(d, "judge.o"))
                    bad = check(["judge.o", st_o], want, f"object of {n}")
                if bad: return job, bad
            return job, None
        finally: core.rmtree(os.path.dirname(d))

    jobs = []
    I = ["-Ii1"]
    for stage in STAGES:
        for out in OUTS:
            for lst in LISTS:
                for order in (0, 1, 2):
                    if order and len(stage) > 2 and not core.THOROUGH: continue
                    jobs.append((stage, out, lst, I, order, 0))
                if not stage or len(stage) == 2: jobs.append((stage, out, lst, I, 0, 1))
    keys = list(OPTS)
    for stage in ("", "-c", "-S", "-E"):
        for p in itertools.permutations(keys, 2):
            jobs.append((stage, None if stage != "-E" else "out.i", "b a" if not stage else "a", list(p) if any("-I" in x for x in p) else list(p) + I, 0, 0))
        if core.THOROUGH:
            for p in itertools.permutations(keys, 3):
                if stage in ("", "-E"): jobs.append((stage, None, "a b.c" if not stage else "a", list(p) + I, 1, 0))
    LIB = [["-Ll1", "-lh", "-lother"], ["-lh", "-lother", "-Ll1"], ["-L l2", "-Ll1", "-l h", "-lother"], ["-Ll1", "-L l2", "-lother", "-lh"], ["-lh", "-Ll1"], ["-lother", "-L l2"], ["-lh", "-lother"]]
    for l in LIB:
        for p in (itertools.permutations(l)):
            for order in (0, 1, 2): jobs.append(("", None, "a", list(p) + I, order, 0))
    seen = set()
    jobs = [j for j in jobs if not (repr(j) in seen or seen.add(repr(j)))]

    for job, bad in core.pmap(judge, jobs, chunksize=8, stop=lambda: len(rep.fails) > 40):
        stage, out, lst, opts, order, stale = job
        rep.evals += 1
        rep.nontrivial += 1
        rep.outcomes.add((STAGES[stage], LISTS[lst][1], tuple(opts)))
        if bad:
            names = LISTS[lst][0]
            cmd = f"{stage} {' '.join(x for k in opts for x in OPTS[k])} {'-o ' + out if out else ''} {' '.join(names)}"
            rep.fail(f"cl:{stage or 'link'}:{out or ''}:{lst}:{','.join(opts)}:{order}{stale}", f"{bad}  [{cmd}]", {"command": cmd, **{n.replace("/", "_"): t for n, t in FILES.items()}})

    # informational options and malformed command lines write nothing
    def info(arg):
        args, ok, text = arg
        d = core.subdir("i")
        try:
            write(os.path.join(d, "a.c"), "int main(void) { return 0; }\n")
            r = run([wcc, *args], cwd=d, timeout=20, env={"LD_PRELOAD": so, "MCF_NAMES": os.path.join(d, ".created")})
            extra = listing(d) - {"a.c", ".created"}
            if r.rc < 0: return arg, f"dies from signal {-r.rc}"
            if extra: return arg, f"writes {sorted(extra)}"
            if (r.rc == 0) != ok: return arg, f"exit status {r.rc}"
            if text not in r.out + r.err: return arg, f"output {(r.out + r.err)[:100]!r}"
            return arg, None
        finally: core.rmtree(d)
    infos = [(["-dumpmachine"], True, "x86_64-linux-gnu\n"), (["-print-prog-name=ld"], True, "ld\n"), ([], False, "input"), (["-S"], False, "input"), (["-c", "-o", "x"], False, "input"), (["-h"], False, "Usage"),
             (["-nosuch", "a.c"], False, "-nosuch"), (["a.c", "-o"], False, "-o"), (["-cfoo", "a.c"], False, "-cfoo"), (["-Sx", "a.c"], False, "-Sx"), (["-Ex", "a.c"], False, "-Ex"), (["-o"], False, "-o"), (["-L", "", "a.c"], False, ""), (["-I", "", "a.c"], False, ""), (["-l", "", "a.c"], False, ""), (["-I"], False, ""), (["-L"], False, ""), (["-l"], False, "")]
    for arg, bad in core.pmap(info, infos):
        rep.evals += 1
        if bad: rep.fail("info:" + " ".join(arg[0]), bad)
    rep.sample("-E -c -o out.s a.c b.s"); rep.sample("b.o -Ii1 -c -o out a.c"); rep.sample("-L l2 -Ll1 -l h -lother -Ii1 a.c")
    return rep.finish()
