"""Hermitian conjugation: words, polynomials and histories of conjugations with
complex coefficients; TLC compares with reversed products of adjoint generators."""
import random

from exprgen import Uni, coef, history, reroutes, rewrite_models, expr_models
from useralg import ALGS, Setup


def run(c):
    q = c.quick
    b_int = c.build("e_int", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=std::complex<double>"])
    b_si = c.build("e_si", "expr.cpp", ["-DCFG=idx_cfg<std::string,int>",
                                        "-DBANKS=double,std::complex<double>"])
    b_dyn = c.build("e_dyn", "expr.cpp", ["-DCFG=dyn_cfg", "-DBANKS=std::complex<float>,float"])
    b_long = c.build("e_long", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=long"])
    fs = rewrite_models(c, [("UMixed", 3), ("USpin1", 4)] if q else
                        [("UMixed", 5), ("USpin1", 6), ("USpin32", 5), ("UHalf", 6)])
    fs += expr_models(c, [("UFB", 2, 4, ["AdjointLaws"])] if q else
                      [("USmall", 2, 8, ["AdjointLaws"]), ("UFB", 2, 8, ["AdjointLaws"]),
                       ("UHalf", 2, 8, ["AdjointLaws"])])
    bs = [(b_int.result(), "int", ["cplx"]), (b_si.result(), "si", ["dyadic", "cplx"]),
          (b_dyn.result(), "dyn", ["cplx", "dyadic"]), (b_long.result(), "int", ["int"])]
    jobs, users = [], []
    for s in range(c.more(36, 80)):
        rng = random.Random("E04-%d-%d" % (c.seed, s))
        b, idx, ck = bs[s % 4]
        v = (s // 4) % 3
        if v == 0:
            u = Uni(rng, idx, ferm=rng.randint(1, 3), bos=rng.randint(0, 2), spins=[2])
        elif v == 1:
            u = Uni(rng, idx, ferm=1, bos=1, spins=[2, 3])
        else:
            u = Uni(rng, idx, ferm=1, bos=1, spins=[rng.choice([3, 4, 5])])
        ls = u.header() + ["cap 65536 40 6"]
        # conjugates of long words, twice, and sums with h.c.
        for _ in range(40 if q else 150):
            ls.append("clear 1")
            for _ in range(rng.randint(1, 3)):
                w = u.word(rng, rng.randint(1, 5), 60)
                ls.append("mono 2 %s %s" % (coef(rng, ck[0]), " ".join(map(str, w))))
                ls.append("iadd 1 2")
            ls.append("conj 2 1")
            k = rng.randrange(4)
            if k == 0:
                ls += ["conj 3 2"] + (["eq 3 1"] if v == 0 else []) + ["conj 1 1"]
            elif k == 1:
                ls += ["hcadd 3 1", "hcsub 1 1"]
            elif k == 2:
                ls += ["hcsub 3 1", "conj 4 3", "add 4 4 3", "hcadd 1 1"]
            else:
                ls += ["tr 3 1 2"]
        jobs.append((b, "words and conjugates %d" % s, ls))
        ls = u.header() + ["cap 65536 40 5"]
        ls += history(rng, u, 90 if q else 300, len(ck), ck, wordlen=2,
                      ops={"mono", "add", "iadd", "isub", "mul", "conj", "hcadd", "hcsub",
                           "copy", "move", "swap", "scal", "tr", "conv"})
        if v == 0 and idx != "si":
            ls += [x for x in reroutes(rng, u, 1, ck, 8) if x]
        jobs.append((b, "history of conjugations %d" % s, ls))
    # user-defined algebras: conjugates of generators are linear functions
    for s in range(c.more(12, 40)):
        rng = random.Random("E04-%d-u%d" % (c.seed, s))
        while True:
            al = [rng.choice(ALGS)(rng, rng.randint(2, 4))]
            if rng.random() < 0.4:
                al.append(rng.choice(ALGS)(rng, 2))
            u = Setup(rng, al, "int", ferm=rng.randint(0, 1), bos=rng.randint(0, 1))
            if u.conj and any(a.conjs for a in al):
                break
        ls = u.header() + ["cap 65536 30 5"]
        for _ in range(30 if q else 120):
            ls.append("clear 1")
            for _ in range(rng.randint(1, 3)):
                w = u.word(rng, rng.choice([1, 1, 2, 2, 3, 4]))
                ls += ["mono 2 %s %s" % (coef(rng, "cplx"), " ".join(map(str, w))), "iadd 1 2"]
            ls += ["conj 2 1"] + rng.choice([["conj 3 2", "eq 3 1"], ["hcadd 3 1"], ["hcsub 3 1"]])
        users.append((ls, " + ".join(a.name for a in al)))
    fs += c.jobs([lambda ls=ls, la=la: c.conform(b_int.result(), "Trace_User", "Trace_User.cfg",
                                                 "\n".join(ls) + "\n", "user algebras: " + la)
                  for ls, la in users])
    fs += c.jobs([lambda b=b, la=la, ls=ls: c.conform(b, "Trace_Expr", "Trace_Expr.cfg",
                                                       "\n".join(ls) + "\n", la)
                  for b, la, ls in jobs])
    c.wait(fs)
