"""Factory functions: called with statically and dynamically typed indices and all
scalar types; TLC compares with the documented definitions and checks products of the
results (defining relations)."""
import random

from exprgen import expr_subst

STRS = ["a", "up", "dn", "b1", "1", "", "2,1", "a_long_index_that_needs_memory"]
MULTS = [0, 2, 3, 4, 7]
SC = ["-", "int", "cplx"]
BASIC = ["c_dag", "c", "n", "a_dag", "a"]
SPIN = ["S_p", "S_m", "S_z"]
XY = ["S_x", "S_y"]


def indices(rng, idx):
    def i(): return "i%d" % rng.choice([0, 1, 2, -3, 11])
    def s(): return "s" + rng.choice(STRS)
    if idx == "int":
        return i()
    if idx == "none":
        return ""
    if idx == "str":
        return s()
    if idx == "si":
        return s() + " " + i()
    return " ".join(rng.choice([i, s])() for _ in range(rng.choice([0, 1, 1, 2, 2])))


def script(rng, idx, n, pm):
    # pm: multiplicities whose products are examined
    ix = []
    for _ in range(100):
        k = indices(rng, idx)
        if k not in ix:
            ix.append(k)
        if len(ix) == 2:
            break
    ls = []
    for k in ix:
        for d in (0, 1):
            ls += ["gen f %d %s" % (d, k), "gen b %d %s" % (d, k)]
        for m in MULTS[1:]:
            for cc in range(3):
                ls.append("gen s %d %d %s" % (m, cc, k))
    rng.shuffle(ls)
    ls.append("cap 65536 40 6")

    def fac(slot, f, sc, m, k):
        return "fac %d %s %s %d %d %s" % (slot, f, sc, m, rng.randint(0, 3), k)
    for k in ix:
        for f in BASIC:
            for sc in SC:
                ls.append(fac(rng.randint(0, 4), f, sc, 0, k))
        for f in SPIN:
            for m in MULTS:
                for sc in SC:
                    ls.append(fac(rng.randint(0, 4), f, sc, m, k))
        for f in XY:
            for m in MULTS:
                ls.append(fac(rng.randint(0, 4), f, "-", m, k))
    # registers 1-5: double, 6-10: complex<double>, 11-15: int
    for _ in range(n):
        v = rng.random()
        k1, k2 = rng.choice(ix), rng.choice(ix)
        if v < 0.3:
            f1, f2 = rng.choice(BASIC), rng.choice(BASIC)
            b, sc = rng.choice([(0, "-"), (5, "cplx"), (10, "int")])
            ls += [fac(0, f1, sc, 0, k1), fac(1, f2, sc, 0, k2)]
        elif v < 0.6:
            f1, f2 = rng.choice(SPIN), rng.choice(SPIN)
            b, sc = rng.choice([(0, "-"), (5, "cplx")])
            m = rng.choice(pm)
            ls += [fac(0, f1, sc, m, k1), fac(1, f2, sc, rng.choice([m, m, rng.choice(pm)]), k2)]
        else:
            b = 5
            m = rng.choice(pm)
            ls += [fac(0, rng.choice(XY), "-", m, k1),
                   fac(1, rng.choice(XY), "-", m, rng.choice([k1, k2]))]
        r = ["mul %d %d %d" % (b + 3, b + 1, b + 2), "mul %d %d %d" % (b + 4, b + 2, b + 1),
             "%s %d %d %d" % (rng.choice(["sub", "add"]), b + 5, b + 3, b + 4),
             "conj %d %d" % (b + 3, b + 5)]
        ls += r
        if b == 0:
            ls += ["mkc %d %d" % (5 + rng.randint(1, 5), rng.randint(1, 5))]
    # S_+ = S_x + i S_y and the Casimir operator
    for m in pm:
        k = rng.choice(ix)
        ls += [fac(0, "S_x", "-", m, k), fac(1, "S_y", "-", m, k), fac(2, "S_z", "cplx", m, k),
               "smul 9 7 lit 1 0,1,1", "add 10 6 9", fac(3, "S_p", "cplx", m, k), "eq 9 10",
               "mul 6 6 6", "mul 7 7 7", "mul 8 8 8", "iadd 6 7", "iadd 6 8"]
    return ls


def run(c):
    q = c.quick
    fl = ["-DFACTORIES", "-DBANKS=double,std::complex<double>,int"]
    cfgs = [("int", ["-DCFG=idx_cfg<int>"]), ("si", ["-DCFG=idx_cfg<std::string,int>"]),
            ("dyn", ["-DCFG=dyn_cfg", "-DFAC_DYN"]), ("none", ["-DCFG=idx_cfg<>"]),
            ("str", ["-DCFG=idx_cfg<std::string>"])]
    if q:
        cfgs = cfgs[:4]
    bins = [c.build("e_" + n, "expr.cpp", fl + f) for n, f in cfgs]
    fs = [c.model("MC_Factories", ["Regs = {}"] + expr_subst("UFac"), ["Relations"],
                  label="all pairs of degrees of freedom")]

    def one(k, s):
        idx = cfgs[k][0]
        rng = random.Random("E08-%d-%s-%d" % (c.seed, idx, s))
        c.conform(bins[k].result(), "Trace_Expr", "Trace_Expr.cfg",
                  "\n".join(script(rng, idx, 10 if q else 60, [0, 2, 3, 4] if q else MULTS)) + "\n", "factories %s %d" % (idx, s))
    for s in range(c.more(4, 10)):
        for k in range(len(cfgs)):
            fs.append(c.pool.submit(one, k, s))
    c.wait(fs)
