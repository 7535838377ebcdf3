"""Disjoint sets: the forest algorithm refines the specification (TLC); histories chosen
by TLC and at random are executed by the real code and validated."""
import random

T = ("Trace_UnionFind", "Trace_UnionFind.cfg")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_DEBUG"]


def tlc(c, num, ops, maxn, seed):
    hs = c.behaviours("MC_UnionFind", ["MaxN = %d" % maxn, "MaxOps = %d" % ops], num, ops + 2, seed, spec="GSpec")
    return [["new 2"] + [" ".join([n] + [str(x) for x in a]) for n, a in h] for h in hs]


def history(rng, n, ops, style):
    """joins of random pairs, of neighbouring blocks (deep trees), chains in both directions"""
    ls = ["new %d" % n]
    if style == 1:
        # pairwise joins of equal trees give the deepest trees
        m = list(range(n))
        rng.shuffle(m)
        step = 1
        while step < n:
            for a in range(0, n - step, 2 * step):
                i = a + (rng.randrange(step) if rng.random() < 0.3 else 0)
                j = a + step + (rng.randrange(min(step, n - a - step)) if rng.random() < 0.3 else 0)
                ls.append(rng.choice(["join", "union", "union"]) + " %d %d" % (m[i], m[j]))
            step *= 2
            if rng.random() < 0.15:
                ls.append(rng.choice(["compnorm", "normalize", "compress", "find %d" % rng.randrange(n)]))
    elif style == 2:
        m = list(range(n))
        if rng.random() < 0.5:
            m.reverse()
        for a in range(n - 1):
            if rng.random() < 0.8:
                ls.append("union %d %d" % ((m[a], m[a + 1]) if rng.random() < 0.5 else (m[a + 1], m[a])))
    for _ in range(ops):
        x, y = rng.randrange(n), rng.randrange(n)
        k = rng.random()
        if k < 0.5:
            ls.append("%s %d %d" % (rng.choice(["union", "join"]), x, y))
        elif k < 0.58:
            ls.append("find %d" % x)
        elif k < 0.66:
            ls.append("same %d %d" % (x, y))
        elif k < 0.75:
            m = rng.randint(0, 3)
            ls.append(rng.choice(["make", "makes %d" % m]))
            n += 1 if ls[-1] == "make" else m
        else:
            ls.append(rng.choice(["compress", "normalize", "compnorm", "compnorm"]))
    return ls + ["compnorm"]


def run(c):
    q = c.quick
    b = [c.build("u", "ufind.cpp"), c.build("u_san", "ufind.cpp", SAN)]
    fs = [c.model("MC_UnionFind", ["MaxN = %d" % (4 if q else 5), "MaxOps = %d" % (6 if q else 8)],
                  ["CountOk", "RootsOk"], ["Abstract"], view="View", workers=3, label="forest refines", heap="6g")]
    nb = 8 if q else 60

    def sim(k):
        hs = []
        for maxn in (5, 12, 30):
            hs += tlc(c, nb, 40, maxn, 1000 * c.seed + 10 * k + maxn)
        c.conform(b[k % 2].result(), *T, "\n".join("\n".join(h) for h in hs) + "\n", label="histories chosen by TLC %d" % k)

    def rnd(k):
        rng = random.Random("S03-%d-%d" % (c.seed, k))
        ls = []
        for j in range(20 if q else 20):
            ls += history(rng, rng.choice([1, 2, 3, 5, 8, 16, 17, 32, 40]), rng.randint(5, 40), (j + k) % 3)
        c.conform(b[k % 2].result(), *T, "\n".join(ls) + "\n", label="random %d" % k)
    for k in range(c.more(6, 8)):
        fs.append(c.pool.submit(sim, k))
    for k in range(c.more(48, 60)):
        fs.append(c.pool.submit(rnd, k))
    c.wait(fs)
