"""Comparison operators: tables of all pairs of generators, monomials, elementary
spaces and index sequences, compared by TLC with the documented order."""
import random

IDS = [0, 1, 7, 2147483646, 2147483647]
STRS = ["a", "b", "ab", "A", "", "z", "aa", "ba", "dn", "up", "_", "~", "1", "2", "-1", "0", "10", "a,b", "1,2", "a_long_index_that_needs_memory"]


def comp(rng, kind):
    if kind == "i":
        return "i%d" % rng.choice([0, 1, 2, 3, 10, -1, -2, -10, 100, 2147483647, -2147483647])
    return "s" + rng.choice([s for s in STRS])


def indices(rng, idx):
    if idx == "dyn":
        return " ".join(comp(rng, rng.choice("iis")) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
    return " ".join(comp(rng, k) for k in idx)


def script(rng, idx, n):
    pool = [indices(rng, idx) for _ in range(6)]
    def ix(): return rng.choice(pool) if rng.random() < 0.7 else indices(rng, idx)
    ls = []
    for _ in range(n):
        k = rng.randrange(4)
        if k == 0:
            ls.append("gen f %d %s" % (rng.randint(0, 1), ix()))
        elif k == 1:
            ls.append("gen b %d %s" % (rng.randint(0, 1), ix()))
        elif k == 2:
            ls.append("gen s %d %d %s" % (rng.choice([2, 2, 3, 4]), rng.randint(0, 2), ix()))
        else:
            ls.append("gen u %d %s" % (rng.choice(IDS), ix()))
    for _ in range(n):
        k = rng.choice("fbsu")
        ls.append("es %s %d %s" % (k, {"f": 2, "b": rng.choice([2, 3, 8]),
                                       "s": rng.choice([2, 3, 4]), "u": rng.choice(IDS)}[k],
                                   ix()))
    small = rng.sample(range(1, n + 1), 6)
    for _ in range(n):
        ls.append("mono " + " ".join(str(rng.choice(small)) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4]))))
    if idx == "dyn":
        for _ in range(n):
            ls.append("ix " + ix())
    return ls


def run(c):
    q = c.quick
    cfgs = [("i", ["-DCFG=idx_cfg<int>"]), ("si", ["-DCFG=idx_cfg<std::string,int>"]),
            ("dyn", ["-DCFG=dyn_cfg", "-DORDER_DYN"]), ("ii", ["-DCFG=idx_cfg<int,int>"]),
            ("s", ["-DCFG=idx_cfg<std::string>"]), ("iis", ["-DCFG=idx_cfg<int,int,std::string>"])]
    bins = [c.build("o_" + n, "order.cpp", f) for n, f in cfgs]
    fs = [c.model("MC_Order", [], ["TotalOrder"],
                  workers=3, label="all pairs and triples")]

    def one(k, s):
        idx = cfgs[k][0]
        rng = random.Random("E06-%d-%s-%d" % (c.seed, idx, s))
        c.conform(bins[k].result(), "Trace_Order", "Trace_Order.cfg",
                  "\n".join(script(rng, idx, 40 if q else 80)) + "\n", "order %s %d" % (idx, s))
    for s in range(c.more(4, 20)):
        for k in range(len(cfgs)):
            fs.append(c.pool.submit(one, k, s))
    c.wait(fs)
