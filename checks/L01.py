"""Action of linear operators: the specification's operators on occupation number
states, with cut-offs, signs and ladder factors, against the real ones."""
import random

import lingen as g

T = ("Trace_LinOp", "Trace_LinOp.cfg")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def models(c, q):
    return [c.model("MC_LinOp", ["MaxLen = %d" % (3 if q else 5), "ES <- %s" % e, "Gns <- G%s" % e,
                                 "UserActs <- NoActs"],
                    ["AdjointOk", "Relations", "Composition"], label=e, workers=2)
            for e in ("EF", "EB", "ES1", "EMix")]


def run(c):
    q = c.quick
    b = {"real": c.build("l_real", "linop.cpp", ["-DSCALAR=double"]),
         "cplx": c.build("l_cplx", "linop.cpp", ["-DCFG=idx_cfg<std::string,int>",
                                                 "-DSCALAR=std::complex<double>"]),
         "int": c.build("l_int", "linop.cpp", ["-DSCALAR=int", "-DFERMIONS_ONLY"])}
    # without built-in bit operations of the compiler
    b["port"] = c.build("l_port", "linop.cpp", ["-DSCALAR=double", "-include", "portable.hpp"])
    # generators and spaces without indices
    b["none"] = c.build("l_none", "linop.cpp", ["-DCFG=idx_cfg<>", "-DSCALAR=double"])
    if not q:
        b["mix"] = c.build("l_mix", "linop.cpp", ["-DSCALAR=double", "-DELEMENT=std::complex<double>"])
        b["rat"] = c.build("l_rat", "linop.cpp", ["-DSCALAR=boost::rational<int>", "-DFERMIONS_ONLY",
                                                  "-DWITH_BOOST_RATIONAL"])
        b["dyn"] = c.build("l_dyn", "linop.cpp", ["-DSCALAR=double", "-DCFG=dyn_cfg"])
        b["bmi"] = c.build("l_bmi", "linop.cpp", ["-DSCALAR=double", "-mbmi2", "-mpopcnt"], opt="-O2")
        b["san"] = c.build("l_san", "linop.cpp", ["-DSCALAR=double"] + SAN)
    fs = models(c, q)
    CF = {"cplx": "cplx", "int": "int", "rat": "int"}
    IX = {"cplx": "si", "dyn": "dyn", "none": "none"}

    def job(k, s):
        rng = random.Random("L01-%d-%s-%d" % (c.seed, k, s))
        cf, ix = CF.get(k, "real"), IX.get(k, "int")
        n = 1 if q else 3
        if s >= 300:
            ls, la = g.spin_levels(rng, 12 * n), "spin levels"
        elif s >= 200:
            ls, la = g.wide(rng, cf, 8 * n, ix), "dozens of modes"
        elif cf == "int":
            ls, la = g.small(rng, ix, cf, "fffffu", 20 * n, 64), "fermions"
        elif s % 4 == 0 and ix == "int":
            ls, la = g.boson_levels(rng, 20 * n), "boson levels"
        elif s % 4 == 1 and ix not in ("dyn", "none"):
            ls, la = g.large(rng, cf, 6 * n, ix), "large spaces"
        elif s % 4 == 2:
            ls, la = g.unknown(rng, ix, cf, 30 * n), "operators that cannot be made"
        else:
            ls, la = g.small(rng, ix, cf, None, 14 * n, units=s % 8 == 7), "small spaces"
        c.conform(b[k].result(), *T, "\n".join(ls) + "\n", "%s %s %d" % (la, k, s))
    for k in b:
        if k == "none":
            continue
        for s in range(c.more((12 if k != "int" else 4), 24)):
            fs.append(c.pool.submit(job, k, s))
    for s in range(c.more(10, 20)):
        fs.append(c.pool.submit(job, "real", 100 + 4 * s + 3))
    for s in range(c.more(4, 12)):
        fs.append(c.pool.submit(job, "port" if s % 4 == 3 else "real", 300 + s))
    for s in range(c.more(2, 6)):
        fs.append(c.pool.submit(job, "none", s))
    for k in ("real", "cplx"):
        for s in range(c.more(5, 12)):
            fs.append(c.pool.submit(job, k, 200 + s))
    c.wait(fs)
