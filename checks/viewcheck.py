"""Runs of drivers/view.cpp shared by V01-V04"""
import random

import viewgen as v


def bins(c, full):
    b = {"real": c.build("v_real", "view.cpp", v.EIG + ["-DSCALAR=double"])}
    if full:
        b["cplx"] = c.build("v_cplx", "view.cpp", v.EIG + ["-DCFG=idx_cfg<std::string,int>",
                                                           "-DSCALAR=std::complex<double>"])
    if not c.quick:
        b["dyn"] = c.build("v_dyn", "view.cpp", v.EIG + ["-DCFG=dyn_cfg", "-DSCALAR=double"])
        b["bmi"] = c.build("v_bmi", "view.cpp", v.EIG + ["-DSCALAR=double", "-mbmi", "-mbmi2"], opt="-O2")
        b["san"] = c.build("v_san", "view.cpp", v.EIG + ["-DSCALAR=double"] + v.SAN)
        b["clang"] = c.build("v_clang", "view.cpp", v.EIG + ["-DSCALAR=double"], opt="-O2", cxx="clang++")
    elif "bmi2" in open("/proc/cpuinfo").read():
        # bits are extracted and deposited by instructions if there are any
        b["bmi"] = c.build("v_bmi", "view.cpp", v.EIG + ["-DSCALAR=double", "-mbmi", "-mbmi2"])
    # without built-in bit operations of the compiler
    b["port"] = c.build("v_port", "view.cpp", v.EIG + v.PORT + ["-DSCALAR=double"])
    return b


IX = {"cplx": "si", "dyn": "dyn"}


def run(c, scripts, nhist=0):
    """scripts(rng, idx, cplx, number) -> (lines, label) or None"""
    q = c.quick
    b = bins(c, True)
    fs = [v.model(c)]
    count = scripts(None, None, None, None)

    def job(k, s):
        rng = random.Random("%s-%d-%s-%d" % (c.prop, c.seed, k, s))
        ls, label = scripts(rng, IX.get(k, "int"), k == "cplx", s)
        c.conform(b[k].result(), *v.T, "\n".join(ls) + "\n", "%s: %s" % (k, label), heap="2500m")

    def hist(k):
        hs = v.histories(c, nhist if q else 5 * nhist)
        rng = random.Random("%s-%d-hist" % (c.prop, c.seed))
        ls = scripts(rng, "int", False, -1)
        out = list(ls[0])
        for h in hs:
            out += rng.choice(ls[1]) + v.play(rng, h)
        c.conform(b[k].result(), *v.T, "\n".join(out) + "\n", "histories chosen by TLC", heap="2500m")
    for s in range(count * c.more(2, 6)):
        for n, k in enumerate(b):
            if not q or s % len(b) == n or s < 2:
                fs.append(c.pool.submit(job, k, s))
    if nhist:
        fs.append(c.pool.submit(hist, "real"))
    c.wait(fs)
