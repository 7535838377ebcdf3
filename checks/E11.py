"""Expressions and operators with coefficients from non-commutative rings."""
import random

from useralg import Alg

# units of the rings: rules for products, conjugates
KINDS = ["quaternions", "matrices"]


def ring(kind):
    if kind == 0:
        a = Alg("quaternions", 3)
        t = {(0, 1): (1, 2), (1, 2): (1, 0), (2, 0): (1, 1)}
        for x in range(3):
            for y in range(3):
                if x == y:
                    a.red(x, y, -1)
                else:
                    c, z = t[x, y] if (x, y) in t else (-t[y, x][0], t[y, x][1])
                    a.red(x, y, 0, [(c, z)])
            a.conj(x, [(-1, x)])
        return a
    a = Alg("matrix units", 4)
    for x in range(4):
        for y in range(4):
            if x % 2 == y // 2:
                a.red(x, y, 0, [(1, 2 * (x // 2) + y % 2)])
            else:
                a.red(x, y)
        a.conj(x, [(1, 2 * (x % 2) + x // 2)])
    return a


class Setup:
    def __init__(self, rng, kind, ferm, bos):
        a = ring(kind)
        self.lines, self.dof = [], []
        # fermions in ascending order of indices
        for k in range(ferm):
            ds = rng.sample((0, 1), 2)
            for d in ds:
                self.lines.append("gen f %d i%d" % (d, 3 * k - 1))
                self.dof.append(("f", k, d))
        for k in range(bos):
            for d in (0, 1):
                self.lines.append("gen b %d i%d" % (d, k))
                self.dof.append(("b", k, d))
        self.n = len(self.lines)
        self.nf = 2 * ferm
        self.ferm = ferm
        u = [self.n + 1 + k for k in range(a.n)]
        for k in range(a.n):
            self.lines.append("gen u 0 i%d" % k)

        def lin(l):
            return " ".join("%d,0,1 %d" % (c, u[g]) for c, g in l)
        for (h, g), (c, k, l) in a.swaps.items():
            self.lines.append("rule swap %d %d %d,0,1 %d,0,1 %s" % (u[h], u[g], c, k, lin(l)))
        for (h, g), (k, l) in a.reds.items():
            self.lines.append("rule red %d %d %d,0,1 %s" % (u[h], u[g], k, lin(l)))
        for g, (k, l) in a.conjs.items():
            self.lines.append("rule conj %d %d,0,1 %s" % (u[g], k, lin(l)))
        self.lines.append("units " + " ".join(map(str, ([0] if kind == 0 else []) + u)))


def elem(rng):
    v = rng.random()
    if v < 0.1:
        x = [rng.choice([1, -1, 2, 0]), 0, 0, 0]
    elif v < 0.55:
        x = [0, 0, 0, 0]
        x[rng.randrange(4)] = rng.choice([1, -1, 1, 2])
    elif v < 0.85:
        x = [0, 0, 0, 0]
        for k in rng.sample(range(4), 2):
            x[k] = rng.choice([1, -1, 2, -2, 1])
    else:
        x = [rng.choice([0, 1, -1, 2]) for _ in range(4)]
    return " ".join(map(str, x))


def script(rng, s, n, acts):
    ls = list(s.lines)

    def word(m, ferm=False):
        hi = s.nf if ferm else s.n
        w = [rng.randint(1, hi) for _ in range(m)]
        return " ".join(map(str, w))

    def reg(b=None):
        return 5 * (rng.random() < 0.2 if b is None else b) + rng.randint(1, 5)

    def mono(t, ferm=False):
        ls.append("mono %d %s %s" % (t, elem(rng), word(rng.randint(0, 3), ferm)))
    for t in range(1, 11):
        mono(t)
    ops = {"mono": 10, "const": 2, "copy": 3, "cctor": 2, "clear": 1, "add": 7, "sub": 7, "mul": 12,
           "iadd": 7, "isub": 6, "imul": 7, "neg": 3, "conj": 4, "hcadd": 2, "hcsub": 2, "eq": 5,
           "tr": 4, "scal": 26, "act": 8 if acts else 0, "prod": 4, "hom": 4}
    names, ws = list(ops), list(ops.values())
    for _ in range(n):
        o = rng.choices(names, ws)[0]
        t, a, b = reg(), reg(), reg()
        if rng.random() < 0.2:
            a = t
        if rng.random() < 0.15:
            b = a
        if o == "mono":
            mono(t)
        elif o == "const":
            ls.append("const %d %s" % (t, elem(rng)))
        elif o == "clear":
            ls.append("clear %d" % t)
        elif o in ("add", "sub", "mul"):
            ls.append("%s %d %d %d" % (o, t, a, b))
        elif o in ("copy", "cctor", "iadd", "isub", "imul", "neg", "conj", "hcadd", "hcsub"):
            ls.append("%s %d %d" % (o, t, a))
        elif o == "eq":
            ls.append("eq %d %d" % (a, b))
        elif o == "tr":
            ls.append("tr %d %d %d %s" % (t, a, rng.randint(0, 1), elem(rng)))
        elif o == "prod":       # (a b) c = a (b c)
            for k in (1, 2, 3):
                mono(k)
                if rng.random() < 0.5:
                    mono(4)
                    ls.append("iadd %d 4" % k)
            ls += ["mul 4 1 2", "mul 4 4 3", "mul 5 2 3", "mul 5 1 5", "eq 4 5", "mul 4 1 2", "conj 4 4",
                   "conj 5 1", "conj 3 2", "mul 5 3 5", "eq 4 5", "isub 4 5"]
        elif o == "hom":        # scalar factors and constant expressions are the same
            c = elem(rng)
            ls += ["const 4 " + c, "mul 5 4 %d" % a, "smul 3 %d lit %s" % (a, c), "eq 3 5",
                   "mul 5 %d 4" % a, "muls 3 %d lit %s" % (a, c), "eq 3 5", "sub 3 %d 4" % a,
                   "subs 5 %d lit %s" % (a, c), "eq 3 5", "ssub 3 %d lit %s" % (a, c), "iadd 3 5"]
        elif o == "act":
            k = rng.randint(1, 4)
            mono(k, True)
            for _ in range(rng.randint(0, 2)):
                mono(5, True)
                ls.append("iadd %d 5" % k)
            for r in rng.sample([k, reg()], rng.randint(1, 2)):
                v = " ".join("%d %s" % (rng.randrange(1 << s.ferm), elem(rng))
                             for _ in range(rng.randint(1, 5)))
                ls.append("act %d %d %s" % (rng.randint(0, 4), r, v))
        else:
            o = rng.choice(["smul", "smul", "muls", "muls", "adds", "sadd", "subs", "ssub", "iadds",
                            "isubs", "imuls"])
            x = rng.random()
            if x < 0.45:
                src = "lit " + elem(rng)
            elif x < 0.6:
                src = "int %d" % rng.choice([0, 1, -1, 2])
            else:
                src = "ref %d %d" % (a if rng.random() < 0.6 else b, rng.randint(0, 7))
            ls.append("%s %d %d %s" % (o, t, a, src))
    return ls


def run(c):
    q = c.quick
    bins = {}
    for k in (0, 1):
        for comp in (0, 1):
            bins[k, comp, 0] = c.build("ring%d%d" % (k, comp), "ring.cpp",
                                       ["-DKIND=%d" % k, "-DCOMPOUND=%d" % comp])
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    for k in (0, 1) if not q else (0,):
        bins[k, k, 1] = c.build("ring%ds" % k, "ring.cpp",
                                ["-DKIND=%d" % k, "-DCOMPOUND=%d" % k] + san)
    fs = []
    def one(key, n):
        kind, comp, sn = key
        rng = random.Random("E11-%d-%d%d%d-%d" % (c.seed, kind, comp, sn, n))
        f, b = rng.choice([(1, 0), (2, 0), (2, 1), (1, 1), (3, 0), (2, 0)])
        s = Setup(rng, kind, f, b)
        c.conform(bins[key].result(), "Trace_Ring", "Trace_Ring.cfg",
                  "\n".join(script(rng, s, 90 if q else 250, True)) + "\n",
                  "%s%s %d" % (KINDS[kind], "" if comp else " without +=", n))
    for n in range(c.more(12, 24)):
        for key in bins:
            fs.append(c.pool.submit(one, key, n))
    # the rules of the units: words of units and fermions
    for k in (0, 1):
        rng = random.Random("E11-%d-units-%d" % (c.seed, k))
        s = Setup(rng, k, 1, 1 if not q else 0)
        trace, problem = c.record(bins[k, 1, 0].result(), "\n".join(s.lines) + "\n")
        if problem:
            c.report({"why": "the driver " + problem}, {"script": "\n".join(s.lines)})
            continue
        fs.append(c.model("MC_User", ["U <- UU", "Rule <- URule", "Pow <- UPow", "HasPow <- UHasPow",
                                      "Regs = {}", "MaxLen = %d" % (4 if q else 5)],
                          ["Canonical", "Idempotent", "Confluent", "RightFold", "Adjoint"],
                          label="units of " + KINDS[k], env={"TRACE": trace}))
    c.wait(fs)

