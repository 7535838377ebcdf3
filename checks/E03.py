"""Value semantics: histories of operations over registers, chosen by TLC from the
register machine's behaviours and at random, executed by the real code (with
sanitisers) and validated by TLC: each step changes its target only."""
import random

from exprgen import Uni, history, mixed, expr_models, tlc_histories

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_SANITIZE_VECTOR"]


def run(c):
    q = c.quick
    b_int = c.build("e_int", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=double,int,std::complex<double>"])
    b_san = c.build("e_san", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=double"] + SAN)
    b_dyn = c.build("e_dyn", "expr.cpp", ["-DCFG=dyn_cfg", "-DBANKS=std::complex<double>,double"])
    fs = []
    invs = ["CanonicalRegs", "RingLaws", "AdjointLaws", "ProductDenotes"]
    if q:
        fs += expr_models(c, [("UHalf", 2, 4, ["CanonicalRegs", "RingLaws"])])
    else:
        fs += expr_models(c, [("USmall", 2, 8, invs), ("UFB", 2, 8, invs), ("UHalf", 2, 8, invs),
                              ("UBose", 2, 8, invs)])
    hist = [c.pool.submit(tlc_histories, c, u, 3, ops, num, c.seed + k)
            for k, (u, ops, num) in enumerate(
                [("USmall", 14, 45), ("UFB", 14, 45)] if q else
                [("USmall", 16, 150), ("UFB", 16, 150), ("UFermi", 16, 150), ("UHalf", 16, 100),
                 ("UBose", 16, 100), ("USpin1", 10, 60)])]
    b_int, b_dyn = b_int.result(), b_dyn.result()
    jobs = []

    def add(b, la, ls):
        jobs.append(c.pool.submit(c.conform, b, "Trace_Expr", "Trace_Expr.cfg",
                                  "\n".join(ls) + "\n", la))
    for s in range(c.more(18, 50)):
        rng = random.Random("E03-%d-%d" % (c.seed, s))
        v = s % 2
        idx = "dyn" if v else "int"
        u = Uni(rng, idx, ferm=2, bos=rng.randint(0, 1), spins=[2] if s % 4 < 3 else [3])
        ls = u.header() + ["cap 65536 40 6"]
        ls += history(rng, u, 220 if q else 500, 2 if v else 1, ["cplx", "dyadic"] if v else ["dyadic"],
                      wordlen=2)
        ls += mixed(rng, u, 2 if v else 3, ["cplx", "dyadic"] if v else ["dyadic", "int", "cplx"],
                    36 if q else 72)
        add(b_dyn if v else b_int, "history %d" % s, ls)
    for k, f in enumerate(hist):
        ss = f.result()
        # histories of the same universe are executed one after another (registers
        # keep their contents: part of the history)
        n = 15
        for i in range(0, len(ss), n):
            h = ss[i:i + n]
            ls = list(h[0])
            for x in h[1:]:
                ls += [y for y in x if not y.startswith(("gen ", "cap "))]
            ls = [y for y in ls if not y.startswith("cap ")]
            ngen = sum(1 for y in ls if y.startswith("gen "))
            ls.insert(ngen, "cap 65536 40 6")
            add(b_int, "histories chosen by TLC %d" % k, ls)
    b_san = b_san.result()
    for s in range(c.more(9, 20)):
        rng = random.Random("E03-%d-san%d" % (c.seed, s))
        u = Uni(rng, "int", ferm=2, bos=1, spins=[2])
        ls = u.header() + ["cap 65536 40 6"] + history(rng, u, 200, 1, ["dyadic"], wordlen=2)
        add(b_san, "history with sanitisers %d" % s, ls)
    c.wait(fs + jobs)
