"""Enumeration of basis states: complete sequences for small spaces, prefixes for big
ones, nested and abandoned iterations, iterations over copies; the specification
determines the n-th physical state."""
import random

import hsgen

EN = ["Ranges", "Enumerated"]

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_DEBUG"]
TAIL = ["foreachs 1", "nest 2 1 2"]


def mixes(rng):
    """Products of small dimensions, all orders of power-of-two and other dimensions"""
    ls = ["es b %d i%d" % (d, i) for i in range(4) for d in (1, 2, 3, 4, 5, 7, 8)]
    ops = []
    for _ in range(40):
        n = rng.randint(1, 4)
        s = [7 * i + rng.randint(1, 7) for i in rng.sample(range(4), n)]
        ops += ["vec 1 " + " ".join(map(str, s)), "foreachs 1"]
        if rng.random() < 0.3:
            ops += ["copy 2 1", "add 2 %d" % rng.choice(s), "foreachs 2"]
    return "\n".join(ls + ops) + "\n"


def any_dims(rng):
    """Products of dimensions of any kind (odd, multiples of powers of two, neighbours
    of powers of two, ...)"""
    ds = [d for d in range(1, 101)] + [24, 40, 48, 56, 72, 80, 96, 112, 127, 128, 129, 136, 192, 320] * 3
    es = [rng.choice(ds) for _ in range(24)]
    ls = ["es b %d i%d" % (d, i) for i, d in enumerate(es)]
    ops = []
    while len(ops) < 40:
        s = rng.sample(range(1, 25), rng.randint(2, 3))
        p = 1
        for k in s:
            p *= es[k - 1]
        if p <= 2500:
            ops += ["vec 1 " + " ".join(map(str, s)), "foreachs 1"]
        elif p <= 10**6:
            ops += ["vec 1 " + " ".join(map(str, s)), "foreach 1 300"]
    return "\n".join(ls + ops) + "\n"


def large(rng):
    """Spaces of 2^20 .. 2^63 states: prefixes"""
    ls = ["es " + d for d in hsgen.spaces(rng, "int", 14, True)]
    ops = []
    for _ in range(50):
        n = rng.randint(1, 4)
        ops += ["vec %d %s" % (rng.randint(1, 5), " ".join(map(str, rng.sample(range(1, 15), n))))]
        ops += ["foreach %d %d" % (rng.randint(1, 5), rng.choice([1, 5, 40, 120]))]
    return "\n".join(ls + ops) + "\n"


def deep(rng, q):
    """Many small spaces, so that tens of millions of states reach beyond bit 32"""
    # 5^10 * 3^2 is a small product with a carry beyond bit 32
    ds = rng.choice([[5] * 10 + [3] * 3] * 3 + [[3] * 18, [5] * 13, [9] * 8 + [3] * 3, [6] * 12, [5] * 5 + [7] * 6])
    n = len(ds) - rng.randint(0, 1)
    ls = ["es b %d i%d" % (d, k) for k, d in enumerate(ds + [3] * (n + 3 - len(ds)))]
    ls += ["es f i%d" % k for k in range(4)] + ["es s %d i%d" % (m, m) for m in (2, 3, 5)]
    s = list(range(1, n + 1)) + rng.sample(range(n + 4, n + 8), rng.choice([0, 0, 1, 2])) + \
        rng.sample(range(n + 8, n + 11), rng.choice([0, 1, 1, 2]))
    rng.shuffle(s)
    lim = 10**8 if q else 4 * 10**8
    return "\n".join(ls + ["vec 1 " + " ".join(map(str, s)), "sample 1 %d %d" % (rng.randint(lim // 400, lim // 300), lim),
                           "sample 1 %d %d" % (rng.randint(1, 5000), rng.randint(10**4, 10**6))]) + "\n"


def run(c):
    q = c.quick
    bins = {"int": c.build("h_int", "hspace.cpp", ["-DCFG=idx_cfg<int>"], opt="-O1"),
            # without built-in bit operations of the compiler
            "deep": c.build("h_deep", "hspace.cpp", ["-DCFG=idx_cfg<int>"], opt="-O2"),
            "port": c.build("h_port", "hspace.cpp", ["-DCFG=idx_cfg<int>", "-include", "portable.hpp"])}
    fs = hsgen.models(c, [("ESmall", 1, 1, 4, EN)] if q else
                     [("ESmall", 1, 2, 5, EN), ("EMix", 1, 1, 5, EN)])
    if not q:
        bins["san"] = c.build("h_san", "hspace.cpp", ["-DCFG=idx_cfg<int>"] + SAN)
        bins["dyn"] = c.build("h_dyn", "hspace.cpp", ["-DCFG=dyn_cfg"])

    def one(b, s, la):
        c.conform(bins[b].result(), "Trace_HSpace", "Trace_HSpace.cfg", s, la)

    def job(b, s):
        rng = random.Random("H02-%d-%s-%d" % (c.seed, b, s))
        k = s % 4
        if s % 5 == 4:
            one(b, any_dims(rng), "products of any dimensions %d" % s)
        elif k == 0:
            one(b, mixes(rng), "mixtures of dimensions %d" % s)
        elif k == 1:
            one(b, large(rng), "large spaces %d" % s)
        else:
            one(b, hsgen.script(rng, "dyn" if b == "dyn" else "int", nes=8, ops=150,
                                big=k == 2 and s > 4, dims=[1, 2, 3, 4, 5, 6, 7, 8]),
                "history %d" % s)
    for s in range(c.more(4, 12)):
        rng = random.Random("H02d-%d-%d" % (c.seed, s))
        fs.append(c.pool.submit(one, "deep", deep(rng, q), "many states %d" % s))
    for s in range(c.more(30, 100)):
        for b in bins:
            if b == "deep":
                continue
            fs.append(c.pool.submit(job, b, s))
    ss = hsgen.tlc_scripts(c, "ESmall", 15, 40 if q else 300, c.seed, TAIL)
    for i in range(0, len(ss), 20):
        # nest only when both spaces have not been moved from (the driver skips it)
        fs.append(c.pool.submit(one, "int", hsgen.join(ss[i:i + 20]), "histories chosen by TLC"))
    c.wait(fs)
