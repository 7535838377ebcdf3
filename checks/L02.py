"""Parametric operators: every form of calling them against the plain operator at the
arguments, in sequences of calls with changing arguments and shared storage."""
import random

import lingen as g

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(c):
    q = c.quick
    b = {"real": c.build("p_real", "param.cpp", ["-DSCALAR=double"]),
         "cplx": c.build("p_cplx", "param.cpp", ["-DSCALAR=std::complex<double>"]),
         "mix": c.build("p_mix", "param.cpp", ["-DSCALAR=double", "-DELEMENT=std::complex<double>",
                                                  "-include", "oldstd.hpp"])}
    if not q:
        b["san"] = c.build("p_san", "param.cpp", ["-DSCALAR=double"] + SAN)
        b["si"] = c.build("p_si", "param.cpp", ["-DSCALAR=double", "-DCFG=idx_cfg<std::string,int>"])
    fs = [c.model("MC_LinOp", ["MaxLen = 3", "ES <- EMix", "Gns <- GEMix", "UserActs <- NoActs"],
                  ["AdjointOk", "Relations", "Composition"], label="EMix", workers=2)]

    def job(k, s):
        rng = random.Random("L02-%d-%s-%d" % (c.seed, k, s))
        ls = g.param(rng, "cplx" if k == "cplx" else "real", "si" if k == "si" else "int", 16 if q else 60,
                     units=s % 3 == 2)
        c.conform(b[k].result(), "Trace_LinOp", "Trace_LinOp.cfg", "\n".join(ls) + "\n",
                  "calls %s %d" % (k, s))
    for k in b:
        for s in range(c.more(15, 40)):
            fs.append(c.pool.submit(job, k, s))
    c.wait(fs)
