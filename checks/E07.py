"""User-defined algebras: generators whose answers come from tables of rules; TLC
rewrites with the same tables. Consistency (confluence) of the tables is checked by
TLC too."""
import random

from exprgen import history, reroutes
from useralg import ALGS, Setup


def run(c):
    q = c.quick
    b = {"int": c.build("e_int", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=double,std::complex<double>"]),
         "si": c.build("e_si", "expr.cpp", ["-DCFG=idx_cfg<std::string,int>",
                                            "-DBANKS=boost::rational<int>", "-DWITH_BOOST_RATIONAL"]),
         "dyn": c.build("e_dyn", "expr.cpp", ["-DCFG=dyn_cfg", "-DBANKS=double"]),
         "l": c.build("e_l", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=long,int"])}
    fs = []

    def model(s):
        rng = random.Random("E07-%d-m%d" % (c.seed, s))
        al = [ALGS[s % len(ALGS)](rng, 3)]
        if s >= len(ALGS):
            al = [f(rng, 2) for f in rng.sample(ALGS, 2)]
        u = Setup(rng, al, ferm=1 if s >= len(ALGS) else 0)
        p, problem = c.record(b["int"].result(), "\n".join(u.header()) + "\n")
        if problem:
            c.report({"why": "the driver " + problem}, {"script": "\n".join(u.header())})
            return
        inv = ["Canonical", "Idempotent", "Confluent", "RightFold"] + (["Adjoint"] if u.conj else [])
        c.model("MC_User", ["U <- UU", "Rule <- URule", "Pow <- UPow", "HasPow <- UHasPow",
                            "Regs = {}", "MaxLen = %d" % ((4 if s < len(ALGS) else 3) if q else 5)],
                inv, label=" + ".join(a.name for a in al), env={"TRACE": p}, workers=1).result()

    def trace(s):
        rng = random.Random("E07-%d-%d" % (c.seed, s))
        al = [ALGS[s % len(ALGS)](rng, rng.randint(2, 4))]
        if rng.random() < 0.6:
            al.append(rng.choice(ALGS)(rng, 2))
        idx = rng.choice(["int", "int", "si", "dyn"])
        u = Setup(rng, al, idx, ferm=rng.randint(0, 1), bos=rng.randint(0, 1),
                  half=1 if rng.random() < 0.4 else 0, reals=idx != "si" and rng.random() < 0.5)
        key, ck = idx, {"int": ["dyadic", "cplx"], "si": ["rat"], "dyn": ["dyadic"]}[idx]
        if idx == "int" and u.integer and rng.random() < 0.5 and \
           not any(",d" in x for x in u.lines) and not any("gen s" in x for x in u.lines):
            key, ck = "l", ["int", "int"]
        ls = u.header() + ["cap 65536 20 5"]
        for _ in range(45 if q else 200):
            w = u.word(rng, rng.choice([2, 3, 3, 4, 4, 5] if q else [2, 3, 3, 4, 4, 5, 6]))
            ls.append("word %s %d %s" % (rng.choice("LRTCM"), rng.randrange(1000),
                                         " ".join(map(str, w))))
        w1 = type("W", (), {"word": lambda self, r, n, *_: u.word(r, n)})()
        ls += history(rng, w1, 45 if q else 200, len(ck), ck, wordlen=3, hc=u.conj)
        if u.conj:
            ls += reroutes(rng, w1, 1, ck, 5 if q else 20)
        c.conform(b[key].result(), "Trace_User", "Trace_User.cfg", "\n".join(ls) + "\n",
                  "%s (%s, %s)" % (" + ".join(a.name for a in al), idx, key))

    n = len(ALGS)
    fs += [c.pool.submit(trace, s) for s in range(c.more(3 * n, 12 * n))]
    # nested futures: the models run on threads of their own
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(3) as ex:
        ms = [ex.submit(model, s + (c.seed % n if q else 0)) for s in range(5 if q else 2 * n)]
        c.wait(fs + ms)
