"""C24: every single failure of an external operation during a compilation, in every mode."""
import os, resource, signal, subprocess
from .. import core
from ..core import Report, read, run, write

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive single-fault injection into the real compiler: every allocation, open, read, seek, tell, close, temporary file and command of a compilation is made to fail in turn (with several failure modes), every output is cut off at every length by a file size limit, every assembler and linker failure is played; after each, the exit status and the output files are compared with the run without a fault"
NOTE = "Quick takes, of the allocations, the first and last from every call stack; thorough takes every one. A fault that was injected must give a non-zero exit status, no death by a signal, or the very output of the undisturbed run."

A = '''#include "h.h"
#define SQ(x) ((x) * (x))
#define CAT(a, b) a ## b
#if defined(ZZ) && 1
int zz;
#endif
typedef struct s { int a; double d; char c[5]; union { int i; long l; } u; unsigned b : 3; } S;
enum e { E1, E2 = 5 };
static S table[3] = { { 1, 2.5, "ab", { 3 }, 1 }, { E2 } };
char *names[] = { "one", "two" "three", __FILE__ };
float fl = 1.5f; long double ld = 2.5L;
static int local(int n) { static int count = 3; return n ? n * local(n - 1) + count++ : 1; }
double dbl(double a, float b, long double c) { return a * b + c - 3.0; }
struct s ret(struct s a, int i) { a.a += i; return a; }
int va(int n, ...);
int CAT(m, ain)(int argc, char **argv) {
    int i, sum = 0, x = argc, *p = &sum;
    S s = table[1];
    for (i = 0; i < 10; i++) { if (i == 7) break; if (i & 1) continue; *p += SQ(i) + names[i % 2][0]; }
    switch (x) { case 1: sum += 3; break; case 2: goto out; default: sum--; }
    while (x) { do x -= 1; while (x > 5); }
    s = ret(s, sum > 3 ? local(3) : hval(4) && 1);
    s.b = 5; s.u.l = sum << 2;
    sum += s.a + s.b + (int) dbl(s.d, fl, ld) + sizeof(S) + other(sum, 2);
out:
    return sum & 127;
}
'''
H = '#ifndef H_H\n#define H_H\nextern int other(int, int);\nstatic int hval(int a) { return a * 2; }\n#endif\n'
B = 'int data[4] = { 1, 2 };\nint other(int a, int b) { return data[0] + a / b; }\n'
BAD = 'int f(void) { return undeclared; }\n'

MODES = {
    "S": (["-S", "a.c"], ["a.s"]),
    "S-o": (["-S", "-o", "out.s", "a.c"], ["out.s"]),
    "S-stdout": (["-S", "-o", "-", "a.c"], []),
    "E": (["-E", "a.c"], []),
    "E-o": (["-E", "-o", "out.i", "a.c"], ["out.i"]),
    "S-g-PIC": (["-S", "-g", "-fPIC", "a.c"], ["a.s"]),
    "c": (["-c", "a.c"], ["a.o"]),
    "c-two": (["-c", "a.c", "b.c"], ["a.o", "b.o"]),
    "c-asm": (["-c", "b.s", "-o", "out.o"], ["out.o"]),
    "link": (["a.c", "b.c", "-o", "prog"], ["prog"]),
    "link-mixed": (["a.c", "b.s", "-o", "prog"], ["prog"]),
    "link-obj": (["a.c", "bb.o"], ["a.out"]),
    "shared": (["-shared", "-fPIC", "b.c", "-o", "libb.so"], ["libb.so"]),
}
COUNTS = {"fread": [0, 1, 2], "system": [0, 1, 2, 3, 4]}


def main():
    rep = Report("C24", LEVEL, "mode x kind of operation x position x way of failing; exit status and outputs compared with the run without a fault",
                 ["one fault at a time", "a failure of unlink of a temporary file is not among the faults"])
    wcc = os.path.join(core.build("plain"), "wcc")
    so = os.path.join(core.scratch(), "faults.so")
    r = run(["gcc", "-shared", "-fPIC", "-w", "-O1", "-o", so, os.path.join(core.RT, "faults.c"), "-ldl"])
    if r.rc: raise core.CheckError(r.err)

    def setup():
        d = core.subdir("f")
        for n, t in (("a.c", A), ("b.c", B), ("h.h", H), ("bad.c", BAD)): write(os.path.join(d, n), t)
        os.makedirs(os.path.join(d, "tmp"))
        return d
    base = setup()
    run(["gcc", "-S", "-O1", "-o", "b.s", "b.c"], cwd=base); run(["gcc", "-c", "-o", "bb.o", "b.c"], cwd=base)
    bs, bo = open(os.path.join(base, "b.s"), "rb").read(), open(os.path.join(base, "bb.o"), "rb").read()

    def prepare():
        d = setup()
        open(os.path.join(d, "b.s"), "wb").write(bs); open(os.path.join(d, "bb.o"), "wb").write(bo)
        return d

    def invoke(d, args, env=None, preload=True, fsize=None, stdout=None):
        e = dict(core.ENV)
        if preload: e["LD_PRELOAD"] = so
        e.update(env or {})
        def limit():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if fsize is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        out = open(os.path.join(d, "stdout"), "wb") if stdout is None else open(stdout, "wb")
        p = subprocess.Popen([wcc, *args], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, preexec_fn=limit if fsize is not None else None, start_new_session=True)
        out.close()
        try: err = p.communicate(timeout=60)[1]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate()
            return None, "hangs"
        return p.returncode, err.decode("latin-1")

    def result(d, outs):
        """What a user has: the files' contents; for programs what they do."""
        res = {}
        for n in outs + ["stdout"]:
            p = os.path.join(d, n)
            if not os.path.exists(p): res[n] = None; continue
            b = open(p, "rb").read()
            res[n] = b.replace(d.encode(), b"DIR")
            if n in ("prog", "a.out"):
                x = run([p], cwd=d, timeout=10) if os.access(p, os.X_OK) else None
                res[n] = (len(b), x and x.rc)
            elif n.endswith(".so"): res[n] = (len(b), b[:4])
        return res

    ref, calls = {}, {}
    for m, (args, outs) in MODES.items():
        d = prepare()
        cnt = os.path.join(d, "cnt")
        rc, err = invoke(d, args, {"MCF": "list", "MCF_OUT": cnt})
        if rc: raise core.CheckError(f"mode {m} fails without a fault: {err}")
        ref[m] = result(d, outs)
        if any(v is None for v in ref[m].values()): raise core.CheckError(f"mode {m}: no output")
        calls[m] = {}
        reps = {}
        for l in read(cnt).splitlines():
            w = l.split()
            if w[0] == "at": reps.setdefault(w[1], set()).update((int(w[2]), int(w[3])))
            else: calls[m][w[0]] = int(w[1])
        calls[m]["reps"] = reps
        core.rmtree(d)

    def judge(job):
        m, what, env, fsize, full, tools = job
        args, outs = MODES[m]
        d = prepare()
        try:
            if tools:                                   # stand-ins for the assembler and the linker
                os.makedirs(os.path.join(d, "bin"))
                t = os.path.join(d, "bin", tools[0])
                if tools[1] is not None:
                    write(t, "#!/bin/sh\n" + tools[1]); os.chmod(t, 0o755)
                env = dict(env); env["PATH"] = os.path.join(d, "bin") + ":" + core.ENV["PATH"]
                if tools[0] == "xas": env["AS"] = t
            rc, err = invoke(d, args, env, fsize=fsize, stdout="/dev/full" if full else None, preload=fsize is None and not tools)
            if rc is None: return job, "hangs"
            if rc < 0: return job, f"dies from signal {-rc}"
            if rc == 0:
                got = result(d, outs)
                w = dict(ref[m])
                if full: got["stdout"] = b"" if w["stdout"] else w["stdout"]
                if got != w and fsize is not None and (m.startswith("link") or m == "shared"):
                    # does the linker itself hide the failure?
                    invoke(d, ["-c", *(["-fPIC"] if m == "shared" else []), *[a for a in args if a.endswith((".c", ".s"))]], preload=False, stdout="/dev/null")
                    objs = [a[:-1] + "o" if a.endswith((".c", ".s")) else a for a in args if not a.startswith("-") and a not in outs]
                    p = subprocess.run(["gcc", *objs, "-o", outs[0], *(["-shared"] if m == "shared" else [])], cwd=d, env=core.ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                       preexec_fn=lambda: (signal.signal(signal.SIGXFSZ, signal.SIG_IGN), resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))))
                    if p.returncode == 0: return job, 0
                if got != w:
                    n = next(n for n in got if got[n] != w[n])
                    g = got[n]
                    return job, f"exits with 0, but {n} is " + ("missing" if g is None else f"{len(g)} bytes long instead of {len(w[n])}" if isinstance(g, bytes) else f"{g} instead of {w[n]}")
                return job, 0
            return job, None
        finally: core.rmtree(d)

    jobs = []
    for m in MODES:
        full = m in ("S", "E", "S-g-PIC") or core.THOROUGH
        for kind, n in calls[m].items():
            if kind == "reps": continue
            pos = range(n)
            if kind == "alloc":
                if not core.THOROUGH or m not in ("S", "E", "S-g-PIC", "c", "link"): pos = sorted(calls[m]["reps"].get("alloc", ())) if full else range(max(0, n - 60), n)
            for i in pos:
                for mode in COUNTS.get(kind, [0]):
                    jobs.append((m, f"{kind}:{i}:{mode}", {"MCF": f"{kind}:{i}:{mode}"}, None, False, None))
        # every output cut off
        sizes = {len(v) if isinstance(v, bytes) else v[0] for v in ref[m].values()} - {0}
        top = max(sizes)
        step = 1 if core.THOROUGH and top < 20000 else max(1, top // (500 if core.THOROUGH else 40))
        cuts = set(range(0, top, step)) | {s + k for s in sizes for k in (-2, -1)} | set(range(0, 4)) | {k for s in (4096, 8192, 12288) for k in (s - 1, s, s + 1)}
        for c in sorted(cuts):
            if 0 <= c < top: jobs.append((m, f"limit:{c}", {}, c, False, None))
        if ref[m]["stdout"]: jobs.append((m, "full-stdout", {"MCF": "none:0:0"}, None, True, None))
        # the assembler and the linker
        if calls[m]["system"]:
            for t in ("xas", "gcc"):
                if t == "gcc" and not (m.startswith("link") or m == "shared"): continue
                if t == "xas" and m == "link-obj": pass
                real = "as" if t == "xas" else "/usr/bin/gcc"
                for name, script in (("exit1", "exit 1"), ("exit255", "exit 255"), ("term", "kill -TERM $$"), ("kill", "kill -KILL $$"), ("segv", "kill -SEGV $$"), ("worked-exit3", f'{real} "$@"; exit 3'), ("empty-exit1", 'while [ "$1" != -o ]; do shift; done; : > "$2"; exit 1'), ("absent", None)):
                    if name == "absent" and t == "gcc": continue
                    jobs.append((m, f"{t}:{name}", {}, None, False, (t, script)))
                if calls[m]["system"] > 1 and t == "xas":       # only the second run of it fails
                    jobs.append((m, "xas:second", {}, None, False, (t, f'if [ -e ran ]; then exit 1; fi; : > ran; exec {real} "$@"')))
    # unwritable and missing places
    def places(arg):
        name, args, fsok = arg
        d = prepare()
        try:
            os.makedirs(os.path.join(d, "dir.s")); os.makedirs(os.path.join(d, "dir")); os.makedirs(os.path.join(d, "d.c"))
            rc, err = invoke(d, args, preload=False)
            if rc is None: return name, "hangs"
            if rc < 0: return name, f"dies from signal {-rc}"
            if rc == 0: return name, "exits with 0"
            return name, None
        finally: core.rmtree(d)
    pl = [(f"{m}>{o}", [mode, "-o", o, "a.c"] if mode else ["-o", o, "a.c", "b.c"], 0) for m, mode in (("S", "-S"), ("E", "-E"), ("c", "-c"), ("link", "")) for o in ("missing/out", "dir", "a.c/x", "/dev/full" if mode in ("-S", "-E") else "dir/../dir")]
    pl += [(f"{m}<{i}", [*mode, i], 0) for m, mode in (("S", ["-S"]), ("E", ["-E"]), ("c", ["-c"]), ("link", [])) for i in ("missing.c", "d.c", "bad.c", "missing/a.c") if (m, i) != ("E", "bad.c")]
    pl += [(f"{m}<{i}", [*mode, i], 0) for m, mode in (("c", ["-c"]), ("link", [])) for i in ("missing.s", "dir.s")]
    pl += [(f"link<{i}", ["a.c", i], 0) for i in ("missing.o", "missing.c", "missing.s", "b.s b.c".split()[0] + "x.o")] + [("link-undefined", ["a.c"], 0), ("link-twice", ["a.c", "b.c", "b.c"], 0), ("link-library", ["a.c", "b.c", "-lnosuchlibrary"], 0), ("c-second-bad", ["-c", "a.c", "bad.c"], 0), ("S-second-bad", ["-S", "a.c", "bad.c"], 0), ("S-first-bad", ["-S", "bad.c", "a.c"], 0), ("E-second-missing", ["-E", "a.c", "missing.c"], 0)]
    for name, bad in core.pmap(places, pl, chunksize=2):
        rep.evals += 1; rep.nontrivial += 1
        if bad: rep.fail("place:" + name, bad, {"run.sh": name})

    jobs = [j for i, j in enumerate(jobs)]
    survived = 0
    for (m, what, env, fsize, full, tools), bad in core.pmap(judge, jobs, chunksize=8, stop=lambda: len(rep.fails) > 40):
        rep.evals += 1
        rep.nontrivial += bad != 0
        survived += bad == 0
        rep.outcomes.add((m, what.split(":")[0], str(bad)[:20]))
        if bad: rep.fail(f"{m}:{what}", bad, {"a.c": A, "b.c": B, "h.h": H, "run.sh": f"# {what}\ngcc -shared -fPIC -w -o /tmp/faults.so /verif/mc/rt/faults.c -ldl\n" + (f"(trap '' XFSZ; ulimit -f {(fsize or 0) // 1024}; ${{1:-/repo/wcc}} {' '.join(MODES[m][0])})\n" if fsize is not None else f"MCF={env.get('MCF', '')} LD_PRELOAD=/tmp/faults.so ${{1:-/repo/wcc}} {' '.join(MODES[m][0])}; echo $?\n")})
    rep.extra["faults_injected"] = len(jobs)
    rep.extra["faults_survived_with_the_right_output"] = survived
    rep.extra["operations_per_mode"] = {m: {k: v for k, v in c.items() if k != "reps"} for m, c in calls.items()}
    rep.sample("S alloc:117:0 (the 118th allocation fails)"); rep.sample("link limit:4096 (no file may grow beyond 4096 bytes)"); rep.sample("c xas:term (the assembler is terminated)")
    return rep.finish()
