"""Scalar types: the same histories with integer, rational, multiprecision, floating
point and complex coefficients and their mixtures; TLC computes exactly and also
decides the promoted types and which operations have to be refused."""
import random

from exprgen import Uni, edges, history, mixed, reroutes, rewrite_models, tiny
from useralg import ALGS, Setup

CONFIGS = [
    ("float", ["int", "double", "std::complex<double>"], ["int", "dyadic", "cplx"], []),
    ("ints", ["int", "long", "float", "double"], ["int", "int", "dyadic", "dyadic"], []),
    ("rational", ["boost::rational<int>", "int"], ["rat", "int"], ["-DWITH_BOOST_RATIONAL"]),
    ("mpz", ["mpz_class"], ["int"], ["-DWITH_GMP"]),
    ("mpq", ["mpq_class"], ["rat"], ["-DWITH_GMP"]),
    ("mpf", ["mpf_class"], ["dyadic"], ["-DWITH_GMP"]),
    ("cfloat", ["float", "std::complex<float>"], ["dyadic", "cplx"], []),
    ("short", ["short", "int"], ["int", "int"], []),
    ("rlong", ["boost::rational<long>", "long"], ["rat", "int"], ["-DWITH_BOOST_RATIONAL"]),
    ("zmod", ["zmod<12>"], ["mod"], []),
    ("ldouble", ["long double", "int"], ["dyadic", "int"], []),
    # only at the edges
    ("narrow", ["signed char", "unsigned short", "int"], None, []),
    ("unsigned", ["unsigned", "double"], None, []),
]

# the types that cannot hold some of the constants first
USER = ["rational", "mpq", "mpz", "rlong", "ints", "float"]


def run(c):
    q = c.quick
    fs = rewrite_models(c, [("UHalf", 3)] if q else [("UMixed", 5), ("UHalf", 6)])
    cf = CONFIGS
    bins = [c.build("e_" + n, "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=" + ",".join(b)] + fl)
            for n, b, _, fl in cf]
    jobs = []

    def one(k, s):
        name, banks, ck, _ = cf[k]
        rng = random.Random("E05-%d-%s-%d" % (c.seed, name, s))
        u = Uni(rng, "int", ferm=2, bos=1, spins=[] if name == "zmod" else
                [2] if s % 3 < 2 else [2, 3])
        ls = u.header() + ["cap 65536 40 5"]
        if len(banks) > 1:
            ls += history(rng, u, 180 if q else 500, len(banks), ck, wordlen=2)
            ls += mixed(rng, u, len(banks), ck, 10 if q else 40)
        else:
            ls += history(rng, u, 120 if q else 300, 1, ck, wordlen=3)
        if s % 3 < 2 and s % 2 == 1:
            ls += reroutes(rng, u, 1, ck, 12 if q else 40)
        c.conform(bins[k].result(), "Trace_Expr", "Trace_Expr.cfg", "\n".join(ls) + "\n",
                  "scalars %s %d" % (name, s))

    def small(k, kinds, s):
        name, banks, _, _ = cf[k]
        rng = random.Random("E05-%d-%s-tiny%d" % (c.seed, name, s))
        u = Uni(rng, "int", ferm=2, bos=1, spins=[2])
        ls = u.header() + tiny(rng, u, 120 if q else 400, len(banks), kinds)
        c.conform(bins[k].result(), "Trace_Expr", "Trace_Expr.cfg", "\n".join(ls) + "\n",
                  "small coefficients %s %d" % (name, s))
    TINY = {"float": ["int", "tiny20", "ctiny"], "mpf": ["tiny20"], "mpq": ["tiny20"],
            "cfloat": ["tiny12", "tiny12"], "ldouble": ["tiny20", "int"], "rational": ["tiny12", "int"]}
    for s in range(c.more(2, 6)):
        for k in range(len(cf)):
            if cf[k][0] in TINY:
                jobs.append(c.pool.submit(small, k, TINY[cf[k][0]], s))
    # user-defined algebras whose constants not all types can hold
    def user(k, s):
        name, banks, ck, _ = cf[k]
        rng = random.Random("E05-%d-%s-user%d" % (c.seed, name, s))
        al = [rng.choice(ALGS)(rng, rng.randint(2, 3))]
        if rng.random() < 0.4:
            al.append(rng.choice(ALGS)(rng, 2))
        u = Setup(rng, al, "int", ferm=rng.randint(0, 1), half=1 if rng.random() < 0.3 else 0,
                  reals=rng.random() < (0.3 if name in USER[:4] else 0.7), unreduced=rng.random() < 0.6)
        w1 = type("W", (), {"word": lambda self, r, n, *_: u.word(r, n)})()
        ls = u.header() + ["cap 4096 20 5"]
        for _ in range(25 if q else 100):
            ls.append("word %s %d %s" % (rng.choice("LRTCM"), rng.randrange(1000),
                                         " ".join(map(str, u.word(rng, rng.choice([2, 3, 4]))))))
        ls += history(rng, w1, 60 if q else 240, len(banks), ck, wordlen=3, hc=u.conj)
        c.conform(bins[k].result(), "Trace_User", "Trace_User.cfg", "\n".join(ls) + "\n",
                  "constants %s %d" % (name, s))

    def consts(k):
        rng = random.Random("E05-%d-%s-num" % (c.seed, cf[k][0]))
        ls = ["gen f 0 i0", "gen f 1 i0"]
        for _ in range(120 if q else 2000):
            n, d = rng.randint(-40, 40), rng.choice([1, 1, 2, 4, 8, 64, -1, -2, -8])
            if rng.random() < 0.1:
                n *= 500
            w = rng.choice("dirf")
            if w == "i":
                d = 1
            elif w == "r" and cf[k][0] in ("rational", "rlong", "mpq"):
                d = rng.choice([1, 2, 3, 5, 6, 7, 12, -3, -6])
            ls.append("num %s %d %d" % (w, n, d))
        c.conform(bins[k].result(), "Trace_Expr", "Trace_Expr.cfg", "\n".join(ls) + "\n",
                  "numbers " + cf[k][0])
    for k in range(len(cf)):
        if cf[k][0] != "zmod" and cf[k][2]:
            jobs.append(c.pool.submit(consts, k))
    for s in range(c.more(1, 10)):
        for k in range(len(cf)):
            if cf[k][0] in USER:
                jobs.append(c.pool.submit(user, k, s))
    # the edges of narrow and unsigned types
    EDGES = {"narrow": ([([-128, 127, -127, 1, -1], True), ([65535, 32768, 40000, 1], True),
                         ([1, -1, 2, 100, -128, 128, 65535, -65535], True)],
                        [[-128, 127, 1, 0, -1], [65535, 1, 32768], [1, -1, 0, 65535, 128]]),
             "short": ([([-32768, 32767, -32767, 1, -1], True), ([1, -1, 2, 32768, -32768], True)],
                        [[-32768, 32767, 1, 0, -1], [1, -1, 0, 32768]]),
             "unsigned": ([([1, 2, 3, 1000, 1], False), ([1, -1, 2, -1000, 1000], True)],
                          [[1, 2, 0, 1000], [1, -1, 2, 0, -3]])}

    def edge(k, s):
        name = cf[k][0]
        rng = random.Random("E05-%d-%s-edge%d" % (c.seed, name, s))
        u = Uni(rng, "int", ferm=3, bos=1, spins=[])
        ls = u.header() + edges(rng, u, 150 if q else 500, *EDGES[name])
        c.conform(bins[k].result(), "Trace_Expr", "Trace_Expr.cfg", "\n".join(ls) + "\n",
                  "edges %s %d" % (name, s))
    for s in range(c.more(1, 6)):
        for k in range(len(cf)):
            if cf[k][0] in EDGES:
                jobs.append(c.pool.submit(edge, k, s))
    n = c.more(2, 12)
    for s in range(n):
        for k in range(len(cf)):
            if cf[k][2]:
                jobs.append(c.pool.submit(one, k, s))
    c.wait(fs + jobs)
