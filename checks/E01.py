"""Normal ordering: words of generators multiplied by the real code in all
groupings; TLC compares the result with the product of the operators."""
import itertools
import random

from exprgen import Uni, history, rewrite_models

GROUP = ["L", "R", "T", "C", "M"]


BIG = [8, 9, 11, 12, 16, 17, 20, 32, 33, 41, 64, 65, 101, 128, 129]


def run(c):
    b_int = c.build("e_int", "expr.cpp", ["-DCFG=idx_cfg<int>", "-DBANKS=double"])
    b_si = c.build("e_si", "expr.cpp", ["-DCFG=idx_cfg<std::string,int>", "-DBANKS=double"])
    b_dyn = c.build("e_dyn", "expr.cpp", ["-DCFG=dyn_cfg", "-DBANKS=std::complex<double>"])
    fs = rewrite_models(c, [("UFermi", 4), ("UMixed", 4), ("UHalf", 4), ("UBose", 4),
                            ("USpin1", 4), ("USpin32", 3)] if c.quick else
                        [("UFermi", 6), ("UMixed", 5), ("UHalf", 6), ("UBose", 6),
                         ("USpin1", 6), ("USpin32", 5)])
    b_int, b_si, b_dyn = b_int.result(), b_si.result(), b_dyn.result()
    scripts = []

    # all short words over a universe with every algebra
    rng = random.Random("E01-%d-x" % c.seed)
    u = Uni(rng, "int", ferm=2, bos=1, spins=(2, 3))
    words = []
    for n in range(0, 4):
        for w in itertools.product(range(1, u.n + 1), repeat=n):
            words.append(w)
    rng.shuffle(words)
    shards = 4
    for s in range(shards):
        ls = u.header()
        for k, w in enumerate(words[s::shards]):
            for g in (GROUP if not c.quick and len(w) > 1 else [GROUP[(k + s) % 5]]):
                ls.append("word %s %d %s" % (g, rng.randrange(1000), " ".join(map(str, w))))
        scripts.append((b_int, "all words up to length 3", ls))

    # long random words, large spins, many degrees of freedom
    for s in range(c.more(24, 32)):
        rng = random.Random("E01-%d-%d" % (c.seed, s))
        kind = s % 4
        b, idx = [(b_int, "int"), (b_si, "si"), (b_dyn, "dyn"), (b_dyn, "dyn")][kind]
        u = Uni(rng, idx, ferm=rng.randint(1, 4), bos=rng.randint(0, 3),
                spins=[rng.choice([2, 2, 3, 4, 5, 6]) for _ in range(rng.randint(1, 3))])
        ls = u.header() + ["cap 16384 24 6"]
        for _ in range(150 if c.quick else 500):
            w = u.word(rng, rng.choice([2, 3, 4, 4, 5, 5, 6, 7]), 60)
            ls.append("word %s %d %s" % (rng.choice(GROUP), rng.randrange(1000),
                                         " ".join(map(str, w))))
        scripts.append((b, "random words, universe %d" % s, ls))

    # powers of ladder operators of large spins, including the vanishing ones
    for s in range(c.more(6, 6)):
        rng = random.Random("E01-%d-p%d" % (c.seed, s))
        u = Uni(rng, "int", spins=(2, 3, 4, 5) if s % 2 == 0 else (5, 6, 7), ferm=1)
        ls = u.header()
        for _ in range(150):
            g = rng.choice([k for k in range(1, u.n + 1) if u.kind[k - 1][0] == "s"])
            mu = u.kind[g - 1][1]
            w = [g] * rng.randint(max(1, mu - 2), mu)
            for _ in range(rng.randint(0, 2 if mu < 6 else 7 - mu)):
                w.insert(rng.randint(0, len(w)),
                         rng.choice([k for k in range(1, u.n + 1)
                                     if u.mode[k - 1] == u.mode[g - 1]] + [1]))
            if u.box(w) <= 60:
                ls.append("word %s %d %s" % (rng.choice(GROUP), rng.randrange(1000),
                                             " ".join(map(str, w))))
        scripts.append((b_int, "powers of ladder operators", ls))

    # spins of large multiplicity: short words about runs of ladder operators, powers
    for s in range(c.more(4, 16)):
        rng = random.Random("E01-%d-b%d" % (c.seed, s))
        mus = rng.sample(BIG, 2)
        u = Uni(rng, "wide", spins=mus)
        ls = u.header()
        for _ in range(50):
            mu = rng.choice(mus)
            g = {u.kind[k - 1][2]: k for k in range(1, u.n + 1) if u.kind[k - 1][1] == mu}
            if rng.random() < 0.4:
                w = [g[rng.choice([0, 0, 1, 1, 2])]] * rng.choice([mu - 1, mu, mu, mu + 1])
            else:
                w = [rng.choice([0, 1, 2, 2]) for _ in range(rng.randint(2, 5))]
                e = (mu * mu / 4.0) ** w.count(1) * (mu - 1.0) ** w.count(2) * 24
                if e > 5e8:
                    continue
                wt = sum((1, 2, 1)[x] for x in w)     # every swap with a run makes a new term
                w = [g[x] for x in w]
                if (mu + 1.0) ** (wt + 2) > 3e7:
                    pass
                elif g[1] not in w and rng.random() < 0.5 or e < 1e6 and mu < 24:
                    w += [g[0]] * (rng.choice([3, mu // 2, mu - 1, mu]) if g[1] not in w else 1)
            ls.append("word %s %d %s" % (rng.choice(GROUP), rng.randrange(1000), " ".join(map(str, w))))
        scripts.append((b_int, "large spins %s" % mus, ls))

    # long words: many modes, high powers of bosons
    for s in range(c.more(4, 16)):
        rng = random.Random("E01-%d-l%d" % (c.seed, s))
        u = Uni(rng, "wide", ferm=rng.choice([6, 9, 12, 16]), bos=rng.randint(1, 3), spins=(2,) * rng.randint(0, 3))
        byk = lambda t: [k for k in range(1, u.n + 1) if u.kind[k - 1][0] == t]
        ls = u.header() + ["cap 100000000 90 40"]
        for _ in range(60):
            x = rng.random()
            if x < 0.35:     # at most one operator of every mode
                w = [rng.choice([k for k in range(1, u.n + 1) if u.mode[k - 1] == m])
                     for m in rng.sample(range(u.nmodes), rng.randint(5, u.nmodes))]
            elif x < 0.55:   # some modes twice
                w = [rng.choice([k for k in range(1, u.n + 1) if u.mode[k - 1] == m])
                     for m in rng.sample(range(u.nmodes), rng.randint(5, u.nmodes))]
                w += rng.sample(w, 3)
                w += [k for k in range(1, u.n + 1) if u.mode[k - 1] == u.mode[w[0] - 1]]
                rng.shuffle(w)
            elif x < 0.85:   # powers of one boson
                m = rng.choice([u.mode[k - 1] for k in byk("b")])
                a, d = [[k for k in byk("b") if u.mode[k - 1] == m and u.kind[k - 1][1] == y][0] for y in (0, 1)]
                n, l = rng.randint(1, 8), rng.randint(1, 8)
                w = [a] * n + [d] * l
                if rng.random() < 0.5:
                    w = [d] * rng.randint(0, 30) + w + [a] * rng.randint(0, 30)
                if rng.random() < 0.3:
                    w.insert(rng.randint(0, len(w)), rng.choice(byk("f")))
            else:            # even more modes in reversed order
                w = rng.sample(byk("f"), min(20, len(byk("f")) // 2))
                if sum(1 for k in w for j in w if k < j and u.mode[k - 1] == u.mode[j - 1]) > 4:
                    continue
            ls.append("word %s %d %s" % (rng.choice(GROUP), rng.randrange(1000), " ".join(map(str, w))))
        scripts.append((b_int, "long words %d" % s, ls))

    # products of polynomials
    for s in range(c.more(12, 24)):
        rng = random.Random("E01-%d-m%d" % (c.seed, s))
        b, idx = [(b_int, "int"), (b_si, "si"), (b_dyn, "dyn")][s % 3]
        u = Uni(rng, idx, ferm=2, bos=1, spins=(2, rng.choice([3, 4])) if s % 2 else (2,))
        ls = u.header() + ["cap 4096 16 5"] + history(
            rng, u, 120 if c.quick else 300, 1, ["dyadic" if idx != "dyn" else "cplx"],
            ops={"mono", "add", "sub", "mul", "imul", "iadd", "copy"}, wordlen=2)
        scripts.append((b, "products of polynomials %d" % s, ls))

    fs += c.jobs([lambda b=b, la=la, ls=ls: c.conform(b, "Trace_Expr", "Trace_Expr.cfg",
                                                       "\n".join(ls) + "\n", la)
                  for b, la, ls in scripts])
    c.wait(fs)
