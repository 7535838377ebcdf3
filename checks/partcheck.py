"""Histories of partitions, shared by S01 and S02"""
import random

import lingen as g

T = ("Trace_Partition", "Trace_Partition.cfg")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(c, merges):
    q = c.quick
    b = {"real": c.build("p_real", "part.cpp", ["-DSCALAR=double"]),
         "cplx": c.build("p_cplx", "part.cpp", ["-DCFG=idx_cfg<std::string,int>", "-DSCALAR=std::complex<double>"]),
         "int": c.build("p_int", "part.cpp", ["-DSCALAR=int", "-DFERMIONS_ONLY"])}
    if not q:
        b["dyn"] = c.build("p_dyn", "part.cpp", ["-DSCALAR=double", "-DCFG=dyn_cfg"])
        b["rat"] = c.build("p_rat", "part.cpp", ["-DSCALAR=boost::rational<int>", "-DFERMIONS_ONLY",
                                                 "-DWITH_BOOST_RATIONAL"])
        b["san"] = c.build("p_san", "part.cpp", ["-DSCALAR=double"] + SAN)
    fs = [c.model("MC_Partition", ["Size = %d" % s, "MaxH = %d" % h, "MaxO = %d" % o], ["Finest", "Merged"],
                  label="all relations on %d elements" % s, workers=2, heap="4g")
          for s, h, o in ([(3, 3, 4), (4, 1, 3)] if q else [(3, 9, 9), (4, 2, 4), (5, 1, 3)])]
    CF = {"cplx": "cplx", "int": "int", "rat": "int"}
    IX = {"cplx": "si", "dyn": "dyn"}

    def job(k, s):
        rng = random.Random("%s-%d-%s-%d" % (c.prop, c.seed, k, s))
        ls = g.partition(rng, CF.get(k, "real"), IX.get(k, "int"), 14 if q else 25,
                         rng.choice([16, 32, 64] if q else [16, 32, 64, 128]), merges,
                         "f" if k in ("int", "rat") else None, s % 4 == 3)
        c.conform(b[k].result(), *T, "\n".join(ls) + "\n", "%s %d" % (k, s), heap="2500m")
    for k in b:
        for s in range(c.more({"real": 36, "cplx": 16, "int": 10}[k], 40)):
            fs.append(c.pool.submit(job, k, s))
    c.wait(fs)
