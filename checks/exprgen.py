"""Script generators for drivers/expr.cpp: universes of generators, products,
histories of register operations."""
import random

# some have the same text as integers or sequences
STR = ["a", "b", "ab", "dn", "up", "x1", "1", "0", "-1", "1,2", "a,1", "", "a_long_index_that_needs_memory"]


class Uni:
    """A universe closed under Hermitian conjugation. idx: 'int', 'si' (string, int) or
    'dyn'"""

    def __init__(self, rng, idx, ferm=0, bos=0, spins=()):
        self.rng, self.idx = rng, idx
        self.lines, self.mode, self.kind = [], [], []
        used = set()
        m = 0
        for _ in range(ferm):
            i = self._index(used, "f")
            for d in rng.sample((1, 0), 2):
                self._add("f %d %s" % (d, i), m, ("f", d))
            m += 1
        for _ in range(bos):
            i = self._index(used, "b")
            for d in rng.sample((1, 0), 2):
                self._add("b %d %s" % (d, i), m, ("b", d))
            m += 1
        for mu in spins:
            i = self._index(used, "s%d" % mu)
            for c in rng.sample((0, 1, 2), 3):
                k = "S" if (mu == 2 and rng.random() < 0.3) else "s"
                self._add("%s %d %d %s" % (k, mu, c, i), m, ("s", mu, c))
            m += 1
        self.nmodes = m
        self.n = len(self.lines)
        # the order of declaration does not matter
        p = list(range(self.n))
        rng.shuffle(p)
        self.lines = [self.lines[k] for k in p]
        self.mode = [self.mode[k] for k in p]
        self.kind = [self.kind[k] for k in p]

    def _add(self, line, m, kind):
        self.lines.append(line)
        self.mode.append(m)
        self.kind.append(kind)

    def _index(self, used, tag):
        r = self.rng
        while True:
            if self.idx == "int":
                t = "i%d" % r.choice([0, 1, 2, 3, 10, -1, -5])
            elif self.idx == "wide":
                t = "i%d" % r.randint(-60, 60)
            elif self.idx == "si":
                t = "s%s i%d" % (r.choice(STR), r.randint(-1, 2))
            elif self.idx == "none":
                t = ""
            else:
                t = " ".join(r.choice(["i%d" % r.randint(-1, 2), "s" + r.choice(STR)])
                             for _ in range(r.choice([0, 1, 1, 2, 2, 3])))
            if (tag, t) not in used:
                used.add((tag, t))
                return t

    def header(self):
        return ["gen " + x for x in self.lines]

    def box(self, w):
        """Number of basis states needed to decide equality of operators of these words"""
        occ = {}
        for g in w:
            k, m = self.kind[g - 1], self.mode[g - 1]
            if k[0] == "f":
                occ[m] = 2
            elif k[0] == "s":
                occ[m] = k[1]
            else:
                occ[m] = occ.get(m, 1) + (1 - k[1])
        b = 1
        for v in occ.values():
            b *= v
        return b

    def word(self, rng, n, limit=100, focus=True):
        while True:
            if focus and rng.random() < 0.7:
                ms = rng.sample(range(self.nmodes), min(self.nmodes, rng.choice([1, 1, 2, 2, 3])))
                gs = [g for g in range(1, self.n + 1) if self.mode[g - 1] in ms]
            else:
                gs = range(1, self.n + 1)
            w = [rng.choice(gs) for _ in range(n)]
            if self.box(w) <= limit:
                return w


def coef(rng, kind):
    """Literal coefficients exactly representable in the scalar types"""
    if kind == "int":
        return "%d,0,1" % rng.choice([1, 1, -1, 2, -2, 3, 0])
    if kind == "mod":
        return "%d,0,1" % rng.choice([1, 1, 2, 3, 4, 6, 6, 8, 10])
    if kind == "dyadic":
        if rng.random() < 0.05:
            return "%d,0,4096" % rng.choice([1, -1])
        return "%d,0,%d" % (rng.choice([1, 1, -1, 2, -3, 3, 0]), rng.choice([1, 1, 1, 2, 4]))
    if kind[:4] == "tiny":      # far above the tolerance, far below 1
        d = 1 << int(kind[4:])
        return "%d,0,%d" % (rng.choice([1, -1, 1, 2, -2, 3, 5, -3, d, -d, d + 1, d - 1, 7 * d // 4]), d)
    if kind == "ctiny":
        d = 1 << 20
        return "%d,%d,%d" % (rng.choice([0, 1, -1, 2, -3, d, 0]), rng.choice([1, -1, 0, 3, -d]), d)
    if kind == "rat":
        return "%d,0,%d" % (rng.choice([1, 1, -1, 2, -3, 3, 0]), rng.choice([1, 1, 2, 3, 5]))
    return "%d,%d,%d" % (rng.choice([1, 0, -1, 2, 0]), rng.choice([1, 0, -1, 2, 0]),
                         rng.choice([1, 1, 1, 2]))


def history(rng, uni, nops, banks, ckinds, ops=None, wordlen=3, hc=True, init=True):
    """Random history of register operations over `banks` banks of 5 registers"""
    nr = 5 * banks
    ls = []

    def reg():
        return rng.randint(1, nr)

    def bank(r):
        return (r - 1) // 5

    def mono(t):
        w = uni.word(rng, rng.randint(0, wordlen), 1 << 20)
        ls.append(("mono %d %s " % (t, coef(rng, ckinds[bank(t)]))) + " ".join(map(str, w)))

    if init:
        for t in range(1, nr + 1):
            if rng.random() < 0.8:
                mono(t)
                if rng.random() < 0.6:
                    u = rng.randint(5 * bank(t) + 1, 5 * bank(t) + 5)
                    if u != t:
                        mono(u)
                        ls.append("iadd %d %d" % (t, u))
    weights = {"mono": 8, "const": 3, "copy": 4, "cctor": 2, "conv": 2 if banks > 1 else 0,
               "move": 2, "swap": 2, "clear": 1, "add": 8, "sub": 8, "mul": 14, "iadd": 7,
               "isub": 7, "imul": 9, "neg": 3, "scal": 14, "conj": 5 if hc else 0,
               "hcadd": 2 if hc else 0, "hcsub": 2 if hc else 0, "tr": 3, "eq": 5}
    if ops:
        weights = {k: v for k, v in weights.items() if k in ops}
    names, ws = list(weights), list(weights.values())
    for _ in range(nops):
        op = rng.choices(names, ws)[0]
        t, a, b = reg(), reg(), reg()
        alias = rng.random()
        if alias < 0.15:
            a = t
        elif alias < 0.25:
            b = a
        elif alias < 0.3:
            a = b = t
        if rng.random() < 0.5 and banks > 1:
            pass
        elif banks > 1 and rng.random() < 0.6:
            a = 5 * bank(t) + 1 + (a - 1) % 5
            b = 5 * bank(t) + 1 + (b - 1) % 5
        if op == "mono":
            mono(t)
        elif op == "const":
            ls.append("const %d %s" % (t, coef(rng, ckinds[bank(t)])))
        elif op == "clear":
            ls.append("clear %d" % t)
        elif op in ("add", "sub", "mul"):
            ls.append("%s %d %d %d" % (op, t, a, b))
        elif op in ("iadd", "isub", "imul", "copy", "cctor", "conv", "move", "swap", "neg",
                    "conj", "hcadd", "hcsub"):
            ls.append("%s %d %d" % (op, t, a))
        elif op == "tr":
            ls.append("tr %d %d %d" % (t, a, rng.randint(0, 2)))
        elif op == "eq":
            ls.append("eq %d %d" % (a, b))
        else:
            o = rng.choice(["smul", "muls", "adds", "sadd", "subs", "ssub", "iadds", "isubs",
                            "imuls"])
            if rng.random() < 0.5:
                bk = bank(a) if rng.random() < 0.6 else rng.randrange(banks)
                ls.append("%s %d %d lit %d %s" % (o, t, a, bk, coef(rng, ckinds[bk])))
            else:
                ls.append("%s %d %d ref %d %d" % (
                    o, t, a, a if rng.random() < 0.6 else b, rng.randint(0, 7)))
    return ls


def tiny(rng, uni, nops, banks, ckinds):
    """Sums and differences of coefficients of very different magnitude"""
    return ["cap 65536 60 8", "capadd %d" % (1 << 28)] + history(
        rng, uni, nops, banks, ckinds, wordlen=2,
        ops=("mono", "const", "copy", "cctor", "add", "sub", "iadd", "isub", "neg", "scal", "conj", "tr", "eq"))


def edges(rng, uni, n, signs, lits):
    """Coefficients at the edges of narrow and unsigned types: only operations whose promoted
    results can hold them. signs: the coefficients of each bank and whether its values can be
    negated, lits: the literals"""
    ls = ["cap 4194304 60 8", "capadd 4194304"]
    free = [b for b, (_, ok) in enumerate(signs) if ok]         # closed under all operations
    nb = len(signs)
    last = nb - 1

    def mono(b, t):
        w = uni.word(rng, rng.randint(0, 2 if b == last else 1), 1 << 20)
        ls.append("mono %d %d,0,1 %s" % (t, rng.choice(signs[b][0]), " ".join(map(str, w))))

    def reg(b):
        return 5 * b + rng.randint(1, 5)
    for b in range(nb):
        for t in range(5):
            mono(b, 5 * b + t + 1)
    for _ in range(n):
        o = rng.random()
        if o < 0.3:
            b = rng.randrange(nb)
            mono(b, reg(b))
            continue
        a = rng.randrange(nb)
        # one operand at least makes the result signed
        b = rng.choice(free) if a not in free else rng.randrange(nb)
        if o < 0.45:
            ls.append("neg %d %d" % (reg(last), reg(rng.choice(free))))
        elif o < 0.65:
            x, y = (a, b) if rng.random() < 0.5 else (b, a)
            ls.append("%s %d %d %d" % (rng.choice(["sub", "sub", "add", "mul"]), reg(last), reg(x), reg(y)))
        elif o < 0.75:
            ls.append("%s %d %d" % (rng.choice(["iadd", "isub"]), reg(last), reg(rng.randrange(nb))))
        elif o < 0.97:
            ls.append("%s %d %d lit %d %d,0,1" % (
                rng.choice(["ssub", "ssub", "subs", "adds", "sadd", "smul", "muls"]), reg(last), reg(a), b,
                rng.choice(lits[b])))
        else:
            ls.append("clear %d" % reg(last))
    return ls


def rewrite_models(c, which):
    """Model check the rewriting rules on small universes"""
    fs = []
    for name, ln in which:
        fs.append(c.model("MCU_Rewrite", ["MaxLen = %d" % ln, "WithConj = TRUE",
                                          "U <- " + name, "Rule <- ARule", "Pow <- APow",
                                          "HasPow <- AHasPow"],
                          ["SoundNO", "Canonical", "Idempotent", "GroupingIndependent",
                           "Adjoint", "ZeroIsEmpty"], label=name + " words up to %d" % ln))
    return fs


# Universes of MCU_Universes.tla as declarations of the driver
def _f(d, n): return "f %d i%d" % (d, n)
def _b(d, n): return "b %d i%d" % (d, n)
def _s(m, c, n): return "s %d %d i%d" % (m, c, n)


SPEC_UNIS = {
    "USmall": [_f(1, 1), _f(0, 1), _s(2, 0, 1), _s(2, 1, 1), _s(2, 2, 1)],
    "UFB": [_f(1, 1), _f(0, 1), _b(1, 1), _b(0, 1)],
    "UFermi": [_f(1, 1), _f(0, 1), _f(1, 2), _f(0, 2)],
    "UHalf": [_s(2, 0, 1), _s(2, 1, 1), _s(2, 2, 1), _s(2, 2, 2)],
    "UBose": [_b(1, 1), _b(0, 1), _b(1, 2), _b(0, 2)],
    "USpin1": [_s(3, 0, 1), _s(3, 1, 1), _s(3, 2, 1)],
}


def expr_subst(u):
    return ["U <- " + u, "Rule <- ARule", "Pow <- APow", "HasPow <- AHasPow"]


def tlc_histories(c, u, nregs, ops, num, seed):
    """Behaviours of the register machine (MC_Expr) chosen by TLC's simulator, as scripts"""
    hs = c.behaviours("MC_Expr", ["Regs = {%s}" % ",".join(str(k + 1) for k in range(nregs)),
                                  "MaxOps = %d" % ops, "MaxTerms = 8", "MaxDeg = 5",
                                  "MaxNum = 512"] + expr_subst(u), num, ops + 2, seed, spec="GSpec")
    scripts = []
    for h in hs:
        ls = ["gen " + x for x in SPEC_UNIS[u]] + ["cap 1048576 64 12"]
        for name, a in h:
            cs = lambda q: "%d,%d,%d" % tuple(q)
            if name == "mono":
                ls.append("mono %d %s %s" % (a[0], cs(a[1]), " ".join(map(str, a[2]))))
            elif name in ("smul", "muls", "adds", "sadd", "subs", "ssub", "imuls", "iadds",
                          "isubs"):
                ls.append("%s %d %d lit 0 %s" % (name, a[0], a[1], cs(a[2])))
            else:
                ls.append(" ".join([name] + [str(x) for x in a]))
        scripts.append(ls)
    return scripts


def expr_models(c, which):
    """Explore the register machine exhaustively within bounds. which: (universe,
    number of operations, bound on coefficients, invariants)"""
    fs = []
    for u, ops, num, invs in which:
        fs.append(c.model("MC_Expr", ["Regs = {1,2}", "MaxOps = %d" % ops, "MaxTerms = 4",
                                      "MaxDeg = 3", "MaxNum = %d" % num] + expr_subst(u),
                          invs, label="%s, %d operations" % (u, ops),
                          extra=(), view="View"))
    return fs


def reroutes(rng, uni, banks, ckinds, n, wordlen=2, cplx=False):
    """The same operator computed along different routes, compared with eq: all of these
    cancel many terms. Registers of bank 0 only."""
    ls = []

    def poly(t):
        w = uni.word(rng, rng.randint(1, wordlen), 1 << 20)
        ls.append("mono %d %s %s" % (t, coef(rng, ckinds[0]), " ".join(map(str, w))))
        for _ in range(rng.randint(0, 2)):
            w = uni.word(rng, rng.randint(0, wordlen), 1 << 20)
            ls.append("mono 5 %s %s" % (coef(rng, ckinds[0]), " ".join(map(str, w))))
            ls.append(rng.choice(["iadd %d 5", "isub %d 5"]) % t)

    for _ in range(n):
        k = rng.randrange(9)
        if k == 0:      # (a+b)c = ac + bc
            poly(1); poly(2); poly(3)
            ls += ["add 4 1 2", "mul 4 4 3", "mul 1 1 3", "mul 2 2 3", "add 1 1 2", "eq 1 4",
                   "isub 4 1", "clear 5", "eq 4 5"]
        elif k == 1:    # c(a-b) = ca - cb
            poly(1); poly(2); poly(3)
            ls += ["sub 4 1 2", "mul 4 3 4", "mul 1 3 1", "mul 2 3 2", "isub 1 2", "eq 4 1",
                   "sub 4 4 1"]
        elif k == 2:    # a + b - a - b
            poly(1); poly(2)
            ls += ["add 4 1 2", "isub 4 1", "eq 4 2", "isub 4 2", "sub 3 1 1", "eq 3 4",
                   "isub 1 1", "eq 1 4", "isub 2 2", "eq 2 1"]
        elif k == 3:    # (ab)c = a(bc)
            poly(1); poly(2); poly(3)
            ls += ["mul 4 1 2", "mul 4 4 3", "mul 5 2 3", "mul 1 1 5", "eq 1 4", "isub 1 4"]
        elif k == 4:    # (a+b)(a-b) - a^2 + b^2 + [a,b]
            poly(1); poly(2)
            ls += ["add 3 1 2", "sub 4 1 2", "mul 3 3 4", "mul 4 1 1", "isub 3 4",
                   "mul 4 2 2", "iadd 3 4", "mul 4 1 2", "iadd 3 4", "mul 4 2 1", "isub 3 4",
                   "clear 5", "eq 3 5"]
        elif k == 5:    # scaling with zero, by -1, adding constants
            poly(1)
            ls += ["neg 2 1", "smul 3 1 lit 0 -1,0,1", "eq 2 3", "iadd 2 1", "muls 4 1 lit 0 0,0,1",
                   "eq 2 4", "adds 3 1 lit 0 2,0,1", "isubs 3 3 lit 0 2,0,1", "eq 3 1",
                   "ssub 3 1 lit 0 0,0,1", "neg 3 3", "eq 3 1", "imuls 3 3 lit 0 0,0,1", "eq 3 4"]
        elif k == 6:    # Jacobi
            poly(1); poly(2)
            ls += ["mul 3 1 2", "mul 4 2 1", "isub 3 4", "mul 4 1 3", "mul 5 3 1", "isub 4 5",
                   "mul 5 1 1", "mul 3 5 2", "mul 5 2 5", "isub 4 3", "isub 4 5",
                   "mul 5 1 2", "mul 5 5 1", "iadd 4 5", "iadd 4 5", "clear 5", "eq 4 5"]
        elif k == 7:    # conjugation
            poly(1); poly(2)
            ls += ["mul 3 1 2", "conj 3 3", "conj 4 1", "conj 5 2", "mul 4 5 4", "eq 3 4",
                   "conj 4 4", "mul 3 1 2", "eq 3 4", "hcadd 3 1", "conj 4 1", "add 4 4 1",
                   "eq 3 4", "hcsub 3 1", "conj 4 1", "sub 4 1 4", "eq 3 4", "conj 4 3",
                   "iadd 4 3", "clear 5", "eq 4 5"]
        else:           # a word against its reverse, stepwise
            w = uni.word(rng, rng.randint(2, 3), 1 << 20)
            ls.append("mono 1 1,0,1 " + " ".join(map(str, w)))
            ls.append("const 2 1,0,1")
            for g in w:
                ls += ["mono 3 1,0,1 %d" % g, "imul 2 3"]
            ls += ["eq 1 2", "const 4 1,0,1"]
            for g in reversed(w):
                ls += ["mono 3 1,0,1 %d" % g, "mul 4 3 4"]
            ls += ["eq 1 4", "isub 4 1", "eq 4 5"]
    return ls


def mixed(rng, uni, banks, ckinds, n):
    """Operations on registers of different scalar types that cancel terms"""
    ls = []

    def poly(t, k):
        w = uni.word(rng, rng.randint(0, 2), 1 << 20)
        ls.append("mono %d %s %s" % (t, coef(rng, k), " ".join(map(str, w))))
        for _ in range(rng.randint(0, 3)):
            w = uni.word(rng, rng.randint(0, 2), 1 << 20)
            s = 5 * ((t - 1) // 5) + 5
            ls.append("mono %d %s %s" % (s, coef(rng, k), " ".join(map(str, w))))
            ls.append(rng.choice(["iadd %d %d", "isub %d %d"]) % (t, s))

    pairs = [(x, y) for x in range(banks) for y in range(banks) if x != y or banks == 1]
    rng.shuffle(pairs)
    for i in range(n):
        x, y = pairs[(i // 7 + i) % len(pairs)]
        # coefficients both types can represent
        k = ckinds[x] if rng.random() < 0.5 else "int"
        a, b, d = 5 * x + 1, 5 * y + 2, 5 * y + 3
        poly(a, k)
        ls.append("%s %d %d" % (rng.choice(["conv", "cctor"]), b, a))
        o = i % 7
        if o == 6:      # coefficients narrowed to the type of the target
            poly(d, ckinds[y])
            w = uni.word(rng, rng.randint(0, 2), 1 << 20)
            ls += ["xmono %d %d %s %s" % (b, x, coef(rng, ckinds[x]), " ".join(map(str, w))),
                   "isub %d %d" % (b, a), "iadd %d %d" % (d, a), "clear %d" % b,
                   rng.choice(["iadd %d %d", "isub %d %d"]) % (b, a),
                   "%s %d %d lit %d %s" % (rng.choice(["iadds", "isubs"]), b, b, x, coef(rng, ckinds[x])),
                   "imuls %d %d lit %d %s" % (d, d, x, coef(rng, ckinds[x])),
                   "%s %d %d lit %d %s" % (rng.choice(["iadds", "isubs"]), d, d, x, coef(rng, ckinds[x])),
                   "xconst %d %d %s" % (b, x, coef(rng, ckinds[x])),
                   "isubs %d %d lit %d %s" % (b, b, x, coef(rng, ckinds[x]))]
        elif o < 2:       # a part of the terms cancels
            poly(d, k if o else "int")
            ls += ["iadd %d %d" % (b, d), "sub 4 %d %d" % (a, b), "sub 4 %d %d" % (b, a),
                   "neg %d %d" % (d, b), "add 4 %d %d" % (a, d), "add 4 %d %d" % (d, a)]
        elif o == 2:
            ls += ["sub 4 %d %d" % (a, b), "sub 4 %d %d" % (b, a), "isub %d %d" % (b, a),
                   "iadd %d %d" % (b, a), "isub %d %d" % (a, b)]
        elif o == 3:    # cancellation of the constant term
            q = coef(rng, "int")
            m = ",".join([str(-int(q.split(",")[0]))] + q.split(",")[1:])
            ls.append("%s %d %d lit %d %s" % (rng.choice(["adds", "sadd", "iadds"]), a, a, x, q))
            for op, v in (("subs", q), ("ssub", q), ("adds", m), ("sadd", m)):
                ls.append("%s 4 %d lit %d %s" % (op, a, y, v))
                ls.append("%s 4 %d ref %d %d" % (op, a, a, rng.choice([0, 0, 1])))
            ls.append("%s %d %d lit %d %s" % (rng.choice(["isubs", "subs"]), a, a, y, q))
        elif o == 4:    # products
            ls += ["sub %d %d %d" % (d, a, b), "mul 4 %d %d" % (a, b), "mul 4 %d %d" % (b, a),
                   "imul %d %d" % (b, a)]
        else:           # assignments over old contents
            poly(d, ckinds[y])
            poly(b, ckinds[y])
            ls += ["iadd %d %d" % (d, b), "iadd %d %d" % (a, b), "%s %d %d" % (
                rng.choice(["conv", "cctor", "copy"]), d, a)]
            if ckinds[x] == "dyadic":       # may be narrowed to zero
                ls += ["imuls %d %d lit %d 1,0,%d" % (a, a, x, rng.choice([2, 4])),
                       "conv %d %d" % (d, a)]
            ls += ["conv %d %d" % (a, d),
                "conv %d %d" % (a, b)]
    return ls
