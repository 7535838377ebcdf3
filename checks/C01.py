"""Interleaved, nested and concurrent calls on shared objects return what they return
alone. The specification is Conc; MC_Conc shows which ways of executing calls refine it and
gives the schedules that drivers/conc.cpp follows."""
import random

import concgen as g
from vf import Infra

T = ("Trace_Conc", "Trace_Conc.cfg")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def consts(kind, nt, nc, ni, depth, nested, record=False):
    return ['Kind = "%s"' % kind, "NT = %d" % nt, "NC = %d" % nc, "NI = %d" % ni, "Depth = %d" % depth,
            "Nested = %d" % nested, "Record = " + ("TRUE" if record else "FALSE")]


def run(c):
    q = c.quick
    b = {"plain": c.build("conc", "conc.cpp", ["-pthread"]),
         "tsan": c.build("conc_tsan", "conc.cpp", ["-pthread", "-fsanitize=thread"], opt="-O1")}
    if not q:
        b["o2"] = c.build("conc_o2", "conc.cpp", ["-pthread"], opt="-O2")
        b["san"] = c.build("conc_san", "conc.cpp", ["-pthread"] + SAN, opt="-O1")
        b["tsan2"] = c.build("conc_tsan2", "conc.cpp", ["-pthread", "-fsanitize=thread"], opt="-O2", cxx="clang++")
    big = (2, 2, 2, 2, 1) if q else (2, 2, 3, 3, 2)
    fs = [c.model("MC_Conc", consts("own", *big), ["Alone"], ["Refines", "Ends"], label="calls with cells of their own",
                  workers=3, heap="4g")]
    for k in ("class", "thread", "memo"):
        fs.append(c.model("MC_Conc", consts(k, *big), ["Alone"], label="cells of the " + k, violates="Alone"))

    def plans(k):
        nt = 1 + k % 3
        bs = c.behaviours("MC_Conc", consts("own", nt, 3, 3, 3, 4, True), 30, 400, 100 * c.seed + k)
        return [x["p"] for x in bs]
    beh = [c.pool.submit(plans, k) for k in range(3)]

    def coop(k, s):
        rng = random.Random("C01-%d-%s-%d" % (c.seed, k, s))
        ps = [p for f in beh for p in f.result()]
        c.conform(b[k].result(), *T, "\n".join(g.coop(rng, ps, 14 if q else 30)) + "\n",
                  "schedules %s %d" % (k, s))

    tsan = {}

    def free(k, s):
        rng = random.Random("C01f-%d-%s-%d" % (c.seed, k, s))
        ls = g.free(rng, 10 if q else 24)
        with c.lock:
            if k not in tsan:
                # does the sanitizer work here?
                tr, problem = c_record(c, b[k].result())
                tsan[k] = problem is None
                if problem:
                    c.assumptions.append("ThreadSanitizer does not run here: " + problem[:200])
        c.conform((b[k] if tsan[k] else b["plain"]).result(), *T, "\n".join(ls) + "\n",
                  "free threads %s %d" % (k, s), env={"TSAN_OPTIONS": "exitcode=66 halt_on_error=1 hard_rss_limit_mb=6000"})

    for f in beh:
        f.result()
    for k in b:
        if k.startswith("tsan"):
            for s in range(c.more(16, 40)):
                fs.append(c.pool.submit(free, k, s))
        else:
            for s in range(c.more(24, 40)):
                fs.append(c.pool.submit(coop, k, s))
    c.wait(fs)


def c_record(c, binary):
    """an empty script, without the runner's lock"""
    import subprocess
    p = subprocess.run([binary], input=b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return None, None if p.returncode == 0 else p.stderr.decode("utf8", "replace")
