"""Scripts for the Hilbert space machine (drivers/hspace.cpp)"""
import random

STRS = ["a", "b", "up", "dn", "z", "1", "2", "0,1", "a_long_index_that_needs_memory"]
SPECTRUM = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33]
BIG = [1 << 20, (1 << 20) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32,
       (1 << 32) + 1, (1 << 40) - 1, (1 << 53) + 1, (1 << 57) - 3, (1 << 60) + 1, 1 << 61,
       (1 << 62) - 1, 1 << 62]


# multiplicities of large spins
SPINS = [m + d for m in (1 << 10, 1 << 16, 1 << 20, 1 << 22, 1 << 24, 1 << 25, 1 << 29, 1 << 30)
         for d in (-1, 0, 1)] + [(1 << 31) - 1]


def ix(rng, idx, lo=0):
    if idx == "int":
        return "i%d" % rng.randint(lo, 4)
    if idx == "none":
        return ""
    if idx == "si":
        return "s%s i%d" % (rng.choice(STRS), rng.randint(lo, 3))
    return " ".join(rng.choice(["i%d" % rng.randint(lo, 3), "s" + rng.choice(STRS)])
                    for _ in range(rng.choice([0, 1, 1, 2])))


def key(d):
    """identity of an elementary space as far as a set of spaces is concerned"""
    w = d.split()
    if w[0] == "f":
        return (0,) + tuple(w[1:])
    if w[0] == "b":
        return (1,) + tuple(w[2:])
    if w[0] == "s":
        return (2, w[1]) + tuple(w[2:])
    return (3, w[1]) + tuple(w[3:])


def bits(d):
    w = d.split()
    n = 2 if w[0] == "f" else int(w[1] if w[0] in "bs" else w[2])
    return (n - 1).bit_length()


def dim(d):
    w = d.split()
    return 2 if w[0] == "f" else int(w[1] if w[0] in "bs" else w[2])


def spaces(rng, idx, n, big=False, dims=None):
    """Declarations of elementary spaces, pairwise different"""
    out = []
    while len(out) < n:
        k = rng.choice("fffbbbsssu" if not big else "fbbbbsuu")
        dd = dims or (SPECTRUM + (BIG * 2 if big else []))
        if k == "f":
            d = "f " + ix(rng, idx)
        elif k == "b":
            d = "b %d %s" % (rng.choice(dd), ix(rng, idx))
        elif k == "s":
            d = "s %d %s" % (rng.choice([2, 2, 3, 4, 5, 8, 9] if not big or rng.random() < 0.4
                                        else SPINS), ix(rng, idx))
        else:
            d = "u %d %d %s" % (rng.choice([0, 1, 5]), rng.choice(dd), ix(rng, idx))
        d = d.strip()
        if d not in out:
            out.append(d)
    return out


def script(rng, idx, nes=9, ops=60, big=False, enum=True, dims=None):
    es = spaces(rng, idx, nes, big, dims)
    ls = ["es " + d for d in es]
    R = 5
    # approximate contents, to keep enumeration feasible
    cur = [set() for _ in range(R + 1)]
    moved = set()

    def d_of(t):
        p = 1
        for k in cur[t]:
            p *= dim(es[k - 1])
        return p

    def ok(s):
        ks = [key(es[k - 1]) for k in s]
        return len(set(ks)) == len(ks) and sum(bits(es[k - 1]) for k in s) <= 63

    def okadd(t, k):
        return all(key(es[j - 1]) != key(es[k - 1]) for j in cur[t]) and \
            sum(bits(es[j - 1]) for j in cur[t] | {k}) <= 63

    for _ in range(ops):
        t = rng.randint(1, R)
        a = rng.randint(1, R)
        x = rng.random()
        if x < 0.18:
            n = rng.choice([0, 1, 2, 3, 4, 5])
            s = [rng.randint(1, nes) for _ in range(n)]
            if rng.random() < 0.6:
                s = rng.sample(range(1, nes + 1), n)
            op = rng.choice(["new", "vec"])
            ls.append("%s %d %s" % (op, t, " ".join(map(str, s))))
            if ok(s):
                cur[t] = set(s)
                moved.discard(t)
        elif x < 0.5:
            if t in moved:
                continue
            k = rng.randint(1, nes)
            ls.append("add %d %d" % (t, k))
            if okadd(t, k):
                cur[t] = cur[t] | {k}
        elif x < 0.68:
            op = rng.choice(["copy", "copy", "cctor", "move", "mctor", "swap"])
            if a in moved:
                continue
            if op in ("copy", "cctor"):
                cur[t] = set(cur[a])
                moved.discard(t)
            elif op in ("move", "mctor"):
                if a == t:
                    continue
                cur[t], cur[a] = cur[a], set()
                moved.discard(t)
                moved.add(a)
            else:
                if t in moved or a == t:
                    continue
                cur[t], cur[a] = cur[a], cur[t]
            ls.append("%s %d %d" % (op, t, a))
        elif x < 0.76:
            ls.append("eqs")
        elif enum:
            if t in moved or a in moved:
                continue
            if x < 0.9:
                if d_of(t) <= 3000 and rng.random() < 0.6:
                    ls.append("foreachs %d" % t)
                else:
                    ls.append("foreach %d %d" % (t, rng.choice([1, 2, 7, 40])))
            elif d_of(t) * min(d_of(a), 60) <= 3000 and d_of(a) <= 400:
                ls.append("nest %d %d %d" % (t, a, rng.choice([1, 2, 5])))
    return "\n".join(ls) + "\n"


def exprs(rng, idx, ops=40):
    """Hilbert spaces made from expressions"""
    es = []
    gens = []

    def decl(d):
        if d not in es:
            es.append(d)

    big = rng.random() < 0.3
    d0 = rng.choice(BIG[:-3] if big else [1, 2, 3, 4, 5, 8])
    nidx = [ix(rng, idx) for _ in range(4)]
    if idx == "dyn":
        nidx = [x for x in nidx if x] or ["i1"]

    def last(x):
        w = x.split()
        return int(w[-1][1:]) % 3 if w and w[-1][0] == "i" else 0
    for x in dict.fromkeys(nidx):
        decl("f " + x)
        decl("s 2 " + x)
        gens += ["f 1 " + x, "f 0 " + x, "s 2 %d %s" % (rng.randint(0, 2), x)]
        if rng.random() < 0.7:
            m = rng.choice([3, 4, 5, 8, 9])
            decl("s %d %s" % (m, x))
            gens.append("s %d %d %s" % (m, rng.randint(0, 2), x))
        if rng.random() < 0.8:
            decl("b %d %s" % (d0, x))
            # rule "own": not for string indices
            decl("b %d %s" % (d0 + last(x), x))
            gens += ["b 1 " + x, "b 0 " + x]
        if rng.random() < 0.3:
            decl("u 1 5 " + x)
            gens.append("u 1 " + x)
        if rng.random() < 0.15:
            gens.append("u 0 " + x)
        if rng.random() < 0.3:
            for d in (3, 6, 9):
                decl("u 2 %d %s" % (d, x))
            gens.append("u 2 " + x)
    gens = list(dict.fromkeys(gens))
    decl("u 5 %d %s" % (rng.choice([1, 3]), nidx[0]))
    ls = ["es " + d for d in es] + ["gen " + g for g in gens]
    strs = any(g.split()[-1][0] == "s" and g[0] == "b" for g in gens)
    G = range(1, len(gens) + 1)
    kinds = {"f": "f", "b": "b", "s": "s"}
    for _ in range(ops):
        two = any(g.startswith("u 2") for g in gens)
        rule = rng.choice(["default", "boson", "boson", "f", "b", "s", "fb", "bs", "all", "fu"] +
                          (["all2", "all2", "su2", "bu2", "fu2", "u2"] if two else []) +
                          ([] if strs else ["own", "own"]))
        # mostly expressions the rule can handle
        allow = {"default": "fs", "boson": "fbs", "f": "f", "b": "b", "s": "s", "fb": "fb",
                 "bs": "bs", "all": "fbs", "fu": "f", "own": "fbs", "all2": "fbs",
                 "su2": "s", "bu2": "b", "fu2": "f", "u2": ""}[rule]
        P = [k for k in G if gens[k - 1][0] in allow or
             (rule in ("all", "fu", "all2") and gens[k - 1].startswith("u 1")) or
             (rule.endswith("2") and gens[k - 1].startswith("u 2"))]
        if rng.random() < 0.25 or not P:
            P = list(G)
        toks = []
        for j in range(rng.choice([0, 1, 1, 2, 3, 5])):
            if j:
                toks.append("0")
            # long terms: their first and last generators often occur in shorter ones
            toks += [str(rng.choice(P)) for _ in range(rng.choice([0, 1, 2, 2, 3] if rng.random() < 0.8 else
                                                                  [5, 6, 8]))]
        ls.append("expr %d %s %d %s" % (rng.randint(1, 5), rule, d0, " ".join(toks)))
        if rng.random() < 0.15:
            ls.append("eqs")
        if rng.random() < 0.2:
            ls.append("copy %d %d" % (rng.randint(1, 5), rng.randint(1, 5)))
        if rng.random() < 0.15:
            ls.append("add %d %d" % (rng.randint(1, 5), rng.randint(1, len(es))))
        if rng.random() < 0.25:
            ls.append("foreach %d %d" % (rng.randint(1, 5), rng.choice([3, 20])))
    return "\n".join(ls) + "\n"


# The sets of spaces of MC_HSpace.tla as declarations of the driver
SPEC_ES = {
    "ESmall": ["f i1", "f i2", "b 3 i1", "b 5 i1", "s 3 i1", "u 1 1 i0"],
    "EBig": ["f i1", "b %d i1" % (1 << 61), "b 1 i2", "s 4 i0", "s 2 i1",
             "u 0 %d i1" % ((1 << 59) + 1)],
}


def tlc_scripts(c, es, ops, num, seed, tail=()):
    """Histories of the machine chosen by TLC's simulator"""
    hs = c.behaviours("MC_HSpace", ["HRegs = {1,2,3,4,5}", "MaxOps = %d" % ops, "MaxList = 4",
                                    "ES <- " + es], num, ops + 2, seed, spec="GSpec")
    out = []
    for h in hs:
        ls = ["es " + d for d in SPEC_ES[es]]
        for k, (name, a) in enumerate(h):
            ls.append(" ".join([name] + [str(x) for x in a]))
            if k % 5 == 4:
                ls += list(tail)
        out.append(ls + ["eqs"])
    return out


def join(ss):
    """Several histories one after another: registers keep their contents"""
    ls = list(ss[0])
    for s in ss[1:]:
        ls += [y for y in s if not y.startswith(("es ", "gen "))]
    return "\n".join(ls) + "\n"


def models(c, which):
    """which: (spaces, registers, operations, length of lists, invariants)"""
    return [c.model("MC_HSpace", ["HRegs = {%s}" % ",".join(str(k + 1) for k in range(nr)),
                                  "MaxOps = %d" % ops, "MaxList = %d" % ml, "ES <- " + es],
                    invs, view="View", label="%s, %d registers, %d operations" % (es, nr, ops))
            for es, nr, ops, ml, invs in which]
