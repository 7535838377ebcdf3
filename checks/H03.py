"""Hilbert spaces made from expressions with every construction rule: the set of
required elementary spaces is determined by the generators of the stored expression."""
import random

import hsgen

RS = ["Ranges", "Structure"]

CFGS = {"int": "idx_cfg<int>", "dyn": "dyn_cfg", "si": "idx_cfg<std::string,int>"}


def run(c):
    q = c.quick
    bins = {i: c.build("h_" + i, "hspace.cpp", ["-DCFG=" + f]) for i, f in CFGS.items()}
    fs = hsgen.models(c, [("EBig", 2, 2, 2, RS)])

    def job(idx, s):
        rng = random.Random("H03-%d-%s-%d" % (c.seed, idx, s))
        c.conform(bins[idx].result(), "Trace_HSpace", "Trace_HSpace.cfg",
                  hsgen.exprs(rng, idx, 120), "expressions %s %d" % (idx, s))
    for s in range(c.more(21, 80)):
        for idx in CFGS:
            fs.append(c.pool.submit(job, idx, s))
    c.wait(fs)
