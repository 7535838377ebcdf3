"""Canonical form: histories and identities with many cancellations; TLC compares
every stored expression with the canonical form it computes and == with equality
of operators."""
import random

from exprgen import Uni, history, mixed, reroutes, expr_models, rewrite_models


def run(c):
    q = c.quick
    b_int = c.build("e_int", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=double,std::complex<double>,int"])
    b_z = c.build("e_z", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=zmod<12>"])
    b_si = c.build("e_si", "expr.cpp", ["-DCFG=idx_cfg<std::string,int>", "-DBANKS=long"])
    b_dyn = c.build("e_dyn", "expr.cpp", ["-DCFG=dyn_cfg", "-DBANKS=std::complex<double>"])
    fs = rewrite_models(c, [("UFermi", 4), ("UMixed", 3), ("UHalf", 4)] if q else
                        [("UFermi", 6), ("UMixed", 5), ("UHalf", 6), ("UBose", 6)])
    invs = ["CanonicalRegs", "EqualIffSameOperator"]
    fs += expr_models(c, [("USmall", 2, 8, invs), ("UFB", 2, 8, invs)] if q else
                      [("USmall", 3, 8, invs), ("UFB", 3, 8, invs), ("UHalf", 3, 8, invs)])
    bs = {"int": b_int.result(), "si": b_si.result(), "dyn": b_dyn.result()}
    ck = {"int": "dyadic", "si": "int", "dyn": "cplx"}
    jobs = []
    for s in range(c.more(27, 60)):
        rng = random.Random("E02-%d-%d" % (c.seed, s))
        idx = ["int", "si", "dyn"][s % 3]
        v = (s // 3) % 3
        if v == 0:
            u = Uni(rng, idx, ferm=rng.randint(1, 3), bos=rng.randint(0, 2), spins=[2])
        elif v == 1:
            u = Uni(rng, idx, ferm=rng.randint(0, 2), bos=1, spins=[2, 2])
        else:
            u = Uni(rng, idx, ferm=2, bos=1,
                    spins=[rng.choice([3, 4])] if s % 2 else [2, rng.choice([3, 4, 5])])
        half = u.header() + ["cap 65536 40 6"]
        n = 25 if q else 80
        ls = half + reroutes(rng, u, 1, [ck[idx]], n if v < 2 else n // 2)
        jobs.append((bs[idx], "identities %d" % s, ls))
        ls = half + history(rng, u, 150 if q else 400, 1, [ck[idx]], wordlen=2,
                            ops=None)
        if idx == "int":
            ls += mixed(rng, u, 3, ["dyadic", "cplx", "int"], 12 if q else 40)
        jobs.append((bs[idx], "history %d" % s, ls))
    # coefficients from a ring with zero divisors
    b_z = b_z.result()
    for s in range(c.more(9, 12)):
        rng = random.Random("E02-%d-z%d" % (c.seed, s))
        u = Uni(rng, "int", ferm=rng.randint(1, 2), bos=rng.randint(1, 2))
        ls = u.header() + ["cap 65536 40 6"] + reroutes(rng, u, 1, ["mod"], 12 if q else 40)
        ls += history(rng, u, 120 if q else 400, 1, ["mod"], wordlen=2)
        jobs.append((b_z, "zero divisors %d" % s, ls))
    fs += c.jobs([lambda b=b, la=la, ls=ls: c.conform(b, "Trace_Expr", "Trace_Expr.cfg",
                                                       "\n".join(ls) + "\n", la)
                  for b, la, ls in jobs])
    c.wait(fs)
