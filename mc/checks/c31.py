"""C31: the compiler's containers explored as state machines: every operation sequence up to a length from every fill state, on the real code and on the mathematical object."""
import os
from .. import core
from ..core import Report, run

LEVEL = "model_checking"
TECHNIQUE = "explicit exploration of the real containers: all sequences of up to 4 (thorough 5) operations over a 16-letter alphabet from each of about 900 fill states (tombstones, chains, growth), all pairs of subsets, all graphs up to a size, each run in step with a mathematical map, set or sequence and compared through the whole interface after every history"
NOTE = "Keys are chosen to collide, to form chains that wrap around or run into each other, to be equal at different addresses, and to be negative or wider than int. A second pass runs the same histories under AddressSanitizer."

FAMILIES = {"strmap": 4, "longmap": 4, "longset": 4, "strset": 4, "set": 4, "seq": 4}


def main():
    rep = Report("C31", LEVEL, "container x key family x fill state x operation sequence; the whole interface is read after each", ["the interface in wcc.h"])
    PARTS = 24
    bins = {}
    for variant, flags in (("plain", ["-O1"]), ("asan", ["-O1", "-fsanitize=address"])):
        b = core.build(variant)
        out = os.path.join(core.scratch(), "containers-" + variant)
        r = run(["gcc", *flags, "-w", "-fcommon", "-I", b, os.path.join(core.RT, "containers.c"), os.path.join(b, "libwcc.a"), "-o", out], timeout=120)
        if r.rc: raise core.CheckError("containers.c: " + r.err[-1500:])
        bins[variant] = out

    def one(job):
        v, f, p, parts, d = job
        r = run([bins[v], f, str(p), str(parts), str(d), *(["all"] if core.THOROUGH else [])], timeout=800, env={"ASAN_OPTIONS": "detect_leaks=0"})
        return job, r

    jobs = [("plain", f, p, PARTS, d + (1 if core.THOROUGH else 0)) for f, d in FAMILIES.items() for p in range(PARTS) if not (core.THOROUGH and f in ("strmap", "longmap", "longset"))]
    if core.THOROUGH: jobs += [("plain", f, p, 175, 5) for f in ("strmap", "longmap", "longset") for p in range(0, 175, 3)] + [("plain", f, p, 175, 4) for f in ("strmap", "longmap", "longset") for p in range(175) if p % 3]
    jobs += [("asan", f, p, PARTS, 3) for f in FAMILIES for p in range(PARTS)]
    for (v, f, p, parts, d), r in core.pmap(one, jobs, stop=lambda: len(rep.fails) > 20):
        stats = [l.split()[1:] for l in r.out.splitlines() if l.startswith("stats ")]
        for l in r.out.splitlines():
            if l.startswith("FAIL "):
                what, trace = l[5:].split("\t", 1)
                rep.fail(f"{f}:{what}", f"after the history {trace}", {"run.sh": f"gcc -w -fcommon -I/repo /verif/mc/rt/containers.c /repo/libwcc.a -o containers && ./containers {f} {p} {parts} {d}\n"})
        if r.rc and not (r.rc == 1 and rep.fails and stats):
            what = "hangs" if r.timeout else "leaks memory" if "leaked" in r.out else "AddressSanitizer" if "AddressSanitizer" in r.err else f"ends with {r.rc}"
            rep.fail(f"{f}:{what}", (r.err.strip() or r.out.strip())[-1500:], {"run.sh": f"gcc -w -fcommon -fsanitize=address -I/repo /verif/mc/rt/containers.c /repo/libwcc.a -o containers && ./containers {f} {p} {parts} {d}\n"})
        if stats:
            n, t, s = map(int, stats[0])
            rep.evals += n; rep.transitions += t; rep.states += n
            rep.nontrivial += n if v == "plain" else 0
            rep.outcomes.add((f, p, n))
    rep.sample("strmap fill15/5: del0 put3 (put of a key behind a tombstone)")
    rep.sample("longset fill11/0: put0 copy del0 put1 (then union, intersection and equality with the copy)")
    rep.traces = rep.evals
    rep.extra["operations_run"] = rep.transitions
    return rep.finish()
