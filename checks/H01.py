"""Hilbert spaces as objects: histories of constructions, insertions, copies, moves,
chosen by TLC from the machine's behaviours and at random, executed by the real code
and validated by TLC: after every step all registers describe exactly what they hold."""
import random

import hsgen

RS = ["Ranges", "Structure"]

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_DEBUG"]
CFGS = {"int": "idx_cfg<int>", "dyn": "dyn_cfg", "si": "idx_cfg<std::string,int>",
        "none": "idx_cfg<>"}


def run(c):
    q = c.quick
    bins = {i: c.build("h_" + i, "hspace.cpp", ["-DCFG=" + f]) for i, f in CFGS.items()}
    # without built-in bit operations of the compiler
    bins["port"] = c.build("h_port", "hspace.cpp", ["-DCFG=idx_cfg<int>", "-include", "portable.hpp"])
    fs = hsgen.models(c, [("ESmall", 2, 2, 2, RS)] if q else
                     [("ESmall", 2, 4, 2, RS), ("EBig", 2, 3, 3, RS), ("EBig", 3, 3, 1, RS)])
    hist = [(e, c.pool.submit(hsgen.tlc_scripts, c, e, 20, 60 if q else 400, c.seed + k))
            for k, e in enumerate(["ESmall", "EBig"])]
    if not q:
        bins["san"] = c.build("h_san", "hspace.cpp", ["-DCFG=idx_cfg<int>"] + SAN)

    def one(b, s, la):
        c.conform(bins[b].result(), "Trace_HSpace", "Trace_HSpace.cfg", s, la)

    def job(idx, s, b=None):
        rng = random.Random("H01-%d-%s-%d" % (c.seed, idx, s))
        one(b or idx, hsgen.script(rng, idx, nes=rng.choice([6, 9, 12]), ops=250,
                                   big=s % 2 == 1, enum=False), "history %s %d" % (idx, s))
    for s in range(c.more(12, 40)):
        for idx in CFGS:
            if idx == "none" and s >= 6:
                continue
            fs.append(c.pool.submit(job, idx, s))
    for s in range(c.more(6, 10)):
        fs.append(c.pool.submit(job, "int", 1000 + s, "port"))
        if not q:
            fs.append(c.pool.submit(job, "int", 1000 + s, "san"))
    for e, f in hist:
        ss = f.result()
        for i in range(0, len(ss), 20):
            fs.append(c.pool.submit(one, "int", hsgen.join(ss[i:i + 20]),
                                    "histories chosen by TLC (%s)" % e))
    c.wait(fs)
