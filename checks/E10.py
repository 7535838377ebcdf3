"""What an expression presents to its user: terms met by iterators in both directions,
calls made by transform(), printed text - after every kind of operation, for all scalar
and index types."""
import random

import exprgen
from exprgen import Uni, history, tlc_histories

T = ("Trace_Expr", "Trace_Expr.cfg")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
BR, GMP = "-DWITH_BOOST_RATIONAL", "-DWITH_GMP"
CONFIGS = [
    ("real", "idx_cfg<int>", ["double", "int", "std::complex<double>"], ["dyadic", "int", "cplx"], []),
    ("rat", "idx_cfg<std::string,int>", ["boost::rational<int>", "long", "float"], ["rat", "int", "dyadic"],
     [BR, "-include", "oldstd.hpp"]),
    ("dyn", "dyn_cfg", ["std::complex<float>", "long double", "short"], ["cplx", "dyadic", "int"], []),
    ("gmp", "dyn_cfg", ["mpz_class", "mpq_class", "mpf_class"], ["int", "rat", "dyadic"], [GMP]),
    # generators without indices
    ("none", "idx_cfg<>", ["double", "int"], ["dyadic", "int"], []),
    ("san", "idx_cfg<int>", ["double", "std::complex<double>"], ["dyadic", "cplx"], SAN),
]
IDX = {"real": "int", "rat": "si", "dyn": "dyn", "gmp": "dyn", "san": "int", "none": "none"}


def shown(rng, ls, nr):
    """Insert observations and transformations into a history"""
    out = []
    for l in ls:
        out.append(l)
        if l.split()[0] in ("gen", "cap", "eq"):
            continue
        t = int(l.split()[1])
        x = rng.random()
        if x < 0.45:
            out.append("show %d" % (t if rng.random() < 0.8 else rng.randint(1, nr)))
        elif x < 0.7:
            u = rng.randint(1, nr) if rng.random() < 0.9 else t
            out.append("tr %d %d %d" % (u, t, rng.choice([0, 1, 2, 3, 4, 4, 5, 5])))
            out.append("show %d" % u)
    return out


def build(rng, uni, nr, banks, ckinds, n):
    """Expressions of many terms, with powers and constants"""
    ls = []
    for _ in range(n):
        t = rng.randint(1, nr)
        b = (t - 1) // 5
        for k in range(rng.randint(2, 7)):
            w = []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                g = uni.word(rng, 1, 1 << 20)[0]
                w += [g] * (rng.choice([1, 1, 2, 3, 4]) if uni.kind[g - 1][0] == "b" else 1)
            w = w[:6]
            s = 5 * b + 5
            ls.append("mono %d %s %s" % (s, exprgen.coef(rng, ckinds[b]), " ".join(map(str, w))))
            if s != t:
                ls.append("%s %d %d" % (rng.choice(["iadd", "iadd", "isub"]), t, s))
        ls.append(rng.choice(["neg %d %d", "copy %d %d", "conj %d %d"]) % (rng.randint(5 * b + 1, 5 * b + 5), t))
    return ls


def run(c):
    q = c.quick
    bins = {n: c.build("e_" + n, "expr.cpp", ["-DCFG=" + cfg, "-DBANKS=" + ",".join(b)] + fl)
            for n, cfg, b, _, fl in CONFIGS}
    cf = {n: (b, ck) for n, _, b, ck, _ in CONFIGS}
    fs = [c.model("MC_Monos", ["U <- UMono2", "MRegs = {1, 2}", "MaxLen = 3", "MaxOps = %d" % (3 if q else 4)],
                  ["Ordered", "TextIdentifies"], label="texts of monomials", view="View")]
    fs += exprgen.expr_models(c, [("USmall", 2, 8, ["CanonicalRegs"])] if q else
                              [("USmall", 3, 8, ["CanonicalRegs"]), ("UFB", 3, 8, ["CanonicalRegs"])])

    def one(k, s):
        rng = random.Random("E10-%d-%s-%d" % (c.seed, k, s))
        banks, ck = cf[k]
        nr = 5 * len(banks)
        spins = [2] if "short" not in banks and s % 2 else [rng.choice([3, 4, 5, 12])] if s % 3 == 0 else []
        if k == "none":
            u = Uni(rng, "none", ferm=1, bos=1, spins=spins)
        else:
            u = Uni(rng, IDX[k], ferm=rng.randint(1, 3), bos=rng.randint(1, 2), spins=spins)
        ls = u.header() + ["cap 65536 60 8"]
        ls += shown(rng, build(rng, u, nr, len(banks), ck, 10 if q else 30), nr)
        ls += shown(rng, history(rng, u, 70 if q else 250, len(banks), ck, wordlen=2), nr)
        c.conform(bins[k].result(), *T, "\n".join(ls) + "\n", "presentation %s %d" % (k, s))

    def hist(u, s):
        rng = random.Random("E10-%d-h-%d" % (c.seed, s))
        for n, ls in enumerate(tlc_histories(c, u, 3, 14, 5 if q else 20, c.seed + s)):
            c.conform(bins["real"].result(), *T, "\n".join(shown(rng, ls, 3)) + "\n",
                      "history chosen by TLC %s %d" % (u, n))
    for s in range(c.more(9, 16)):
        for k in bins:
            fs.append(c.pool.submit(one, k, s))
    for s, u in enumerate(["UFB"] if q else ["UFB", "UHalf", "UBose"]):
        fs.append(c.pool.submit(hist, u, s))
    c.wait(fs)
