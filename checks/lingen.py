"""Scripts for the drivers of linear operators: spaces, expressions, states"""
import random

COEFS = ["1,0,1", "1,0,1", "-1,0,1", "2,0,1", "1,0,2", "-3,0,4", "3,0,1"]
CCOEFS = COEFS + ["0,1,1", "0,-1,1", "1,1,1", "1,-2,2"]
ICOEFS = ["1,0,1", "1,0,1", "-1,0,1", "2,0,1", "3,0,1", "-2,0,1"]


class Lin:
    """A set of elementary spaces and the generators acting in them.
    spaces: list of (kind, parameter, index tokens); user spaces get tables"""

    def __init__(self, rng, kinds, idx="int", coefs="real", nuser=2):
        self.rng, self.idx = rng, idx
        self.cf = {"real": COEFS, "cplx": CCOEFS, "int": ICOEFS}[coefs]
        self.lines, self.es, self.gens, self.of = [], [], [], {}
        self.exact = coefs == "int"
        for k, p, i in kinds:
            self.add(k, p, i)

    def add(self, k, p, i):
        e = len(self.es) + 1
        self.es.append((k, p, i))
        self.lines.append("es " + {"f": "f " + i, "b": "b %d %s" % (p, i), "s": "s %d %s" % (p, i),
                                   "u": "u 1 %d %s" % (p, i)}[k])
        gs = []
        if k in "fb":
            gs = ["%s 1 %s" % (k, i), "%s 0 %s" % (k, i)]
        elif k == "s":
            gs = ["s %d %d %s" % (p, c, i) for c in range(3)]
        else:
            gs = ["u 1 " + i]
        for g in gs:
            self.lines.append("gen " + g)
            self.gens.append((k, p, g.split()[1] if k in "fb" else g.split()[2] if k == "s" else ""))
            self.of.setdefault(e, []).append(len(self.gens))
            if k == "u":
                perm = list(range(p))
                self.rng.shuffle(perm)
                t = []
                for n in range(p):
                    c = self.rng.choice([0, 1, 1, -1, 2])
                    t += [str(perm[n]), str(c), "0"]
                self.lines.append("uact %d %s" % (len(self.gens), " ".join(t)))

    def dim(self, e):
        k, p, _ = self.es[e - 1]
        return 2 if k == "f" else p

    def bits(self, e):
        return (self.dim(e) - 1).bit_length()

    def word(self, S, n, spinlen=5):
        """n generators acting in the spaces S"""
        out = []
        for _ in range(n):
            e = self.rng.choice(S)
            out.append(self.rng.choice(self.of[e]))
        return out

    def hermword(self, S, n):
        """n generators, mostly number conserving"""
        out = []
        for _ in range(n):
            k = self.rng.choice(S)
            out.append(self.rng.choice(self.of[k]))
            if self.rng.random() < 0.5:
                same = [e for e in S if self.es[e - 1][0] == self.es[k - 1][0]]
                out.append(self.rng.choice(self.of[self.rng.choice(same)]))
        self.rng.shuffle(out)
        return out

    def poly(self, S, terms, maxlen):
        t = []
        for _ in range(terms):
            w = self.word(S, self.rng.randint(0, maxlen))
            t.append("+ %s %s" % (self.rng.choice(self.cf), " ".join(map(str, w))))
        return " ".join(t)

    def state(self, S, near=None, nz=1):
        """superposition of basis states of the spaces S (in this order)"""
        out, seen = [], set()
        for _ in range(nz):
            d = []
            for j, e in enumerate(S):
                D = self.dim(e)
                if near is not None and out and D > 40:
                    lo = max(0, near[j] - 2)
                    d.append(self.rng.randint(lo, min(D - 1, near[j] + 2)))
                elif D > 40:
                    d.append(self.rng.choice([0, 1, 2, D - 1, D - 2, D - 3, D // 2, self.rng.randrange(D),
                                              min(127, D - 1), min(128, D - 1), min(129, D - 1)]))
                else:
                    d.append(self.rng.randrange(D))
            near = near or d
            if tuple(d) in seen:
                continue
            seen.add(tuple(d))
            c = self.rng.choice(self.cf) if nz > 1 else "1,0,1"
            out.append("%s:%s" % (c, ".".join(map(str, d))))
        return " ".join(out)

    def trim(self, w, limit):
        """leave out generators so that matrix elements stay below the limit: numbers of
        the specification have 32 bits"""
        out, f = [], 1
        for g in w:
            k, p, c = self.gens[g - 1]
            x = p if k == "b" else p * p // 4 + 1 if k == "s" else 2 if k == "u" else 1
            if f * x <= limit:
                f *= x
                out.append(g)
        return out

    def algs(self, S):
        ks = {self.es[e - 1][0] for e in S}
        return ks


LISTS = {"f": "f", "b": "b", "s": "s", "fb": "fb", "fs": "fs", "bs": "bs", "fbs": "fbs", "make": "fbs",
         "fbs1": "fbsu", "f1": "fu", "b1": "bu", "1": "u"}


def lists_for(ks):
    return [n for n, a in LISTS.items() if set(ks) <= set(a)]


def kinds(rng, n, budget, idx="int", big=False, user=True, only=None):
    """random elementary spaces whose product of dimensions is within budget"""
    out, prod, used = [], 1, set()
    tries = 0
    while len(out) < n and tries < 200:
        tries += 1
        k = rng.choice(only or ("fffbbss" + ("u" if user else "")))
        i = "i%d" % rng.randint(0, 9) if idx == "int" else \
            rng.choice(["i%d" % rng.randint(0, 5), "s" + rng.choice(["a", "b", "up", "1", "0,1", "3"]),
                        "s%s i%d" % (rng.choice(["a", "up"]), rng.randint(0, 3)), ""]) if idx == "dyn" else \
            "" if idx == "none" else \
            "s%s i%d" % (rng.choice(["a", "b", "up", "dn"]), rng.randint(0, 4))
        i = i.strip()
        if k == "f":
            p = 2
        elif k == "b":
            p = rng.choice([130, 300, 129, 200, 1000, 4096] if big else [1, 2, 3, 4, 5, 6, 8])
        elif k == "s":
            p = rng.choice([2, 2, 3, 4, 5, 6, 9])
        else:
            p = rng.choice([2, 3, 4, 5])
        key = (k, i) if k != "s" else (k, p, i)
        if key in used or prod * p > budget:
            continue
        used.add(key)
        prod *= p
        out.append((k, p, i))
    return out


# Units of operators and states: products are far from the library's tolerance
UNITS = ["-36 0", "-36 36", "40 -40", "-36 8", "0 -38", "60 -42", "-20 -16", "50 50"]


def small(rng, idx="int", coefs="real", only=None, ops=12, budget=48, units=False):
    """complete actions in small spaces, in units of very different sizes"""
    u = Lin(rng, kinds(rng, rng.randint(5, 7), 10**6, idx, only=only), idx, coefs)
    ls = list(u.lines)
    E = list(range(1, len(u.es) + 1))
    for _ in range(ops):
        rng.shuffle(E)
        S, p = [], 1
        for e in E:
            if p * u.dim(e) <= budget:
                S.append(e)
                p *= u.dim(e)
        if not S:
            continue
        ls.append("hs " + " ".join(map(str, S)))
        if units:
            ls.append("scale " + rng.choice(UNITS))
        al = lists_for(u.algs(S))
        if coefs == "int":
            al = [a for a in al if a in ("f", "f1")]
        for t in (1, 2):
            ls.append("op %d %s %s" % (t, rng.choice(al), u.poly(S, rng.randint(1, 4), 5)))
            ls.append("actall %d %s%d" % (t, rng.choice("ds"), rng.randint(0, 2)))
        ls.append("copyop %d %d" % (rng.randint(1, 3), rng.randint(1, 2)))
        t = rng.randint(1, 3)
        ls.append("act %d %s%d %s" % (t, rng.choice("ds"), rng.randint(0, 2), " ; ".join(
            u.state(S, nz=1 if units else rng.randint(1, 4)) for _ in range(4))))
    return ls


def large(rng, coefs="real", ops=12, idx="int"):
    """products of many spaces, bosons with many levels: sparse vectors"""
    u = Lin(rng, kinds(rng, 6, 2**40, idx, True, only="bbbs") +
            [("f", 2, "i%d" % (20 + k) if idx == "int" else "sz i%d" % k) for k in range(16)], idx, coefs)
    ls = list(u.lines)
    E = list(range(1, len(u.es) + 1))
    for _ in range(ops):
        rng.shuffle(E)
        S, b = [], 0
        for e in E:
            if b + u.bits(e) <= 63:
                S.append(e)
                b += u.bits(e)
        ls.append("hs " + " ".join(map(str, S)))
        F = [e for e in S if u.es[e - 1][0] == "f"]
        B = [e for e in S if u.es[e - 1][0] != "f"]
        terms = []
        for _ in range(rng.randint(1, 5)):
            w = u.word(F, rng.choice([0, 1, 2, 4, 6, 8])) if F else []
            w += u.word(B, rng.choice([0, 1, 2])) if B else []
            if B and rng.random() < 0.3:
                g = rng.choice(u.of[rng.choice(B)])
                w += [g] * rng.randint(1, 2)
            rng.shuffle(w)
            w = u.trim(w, 2**20)
            terms.append("+ %s %s" % (rng.choice(u.cf), " ".join(map(str, w))))
        ls.append("op 1 %s %s" % (rng.choice(["fbs", "make", "fbs1"]), " ".join(terms)))
        ls.append("act 1 s%d %s" % (rng.randint(0, 2), " ; ".join(u.state(S) for _ in range(12))))
        near = None
        ls.append("act 1 s%d %s" % (rng.randint(0, 2), " ; ".join(
            u.state(S, nz=3) for _ in range(4))))
    return ls


def wide(rng, coefs="real", ops=8, idx="int"):
    """34 to 60 fermionic modes, so that signs depend on bits of both halves of a basis
    state, sometimes followed by a boson and a spin"""
    n = rng.randint(34, 60)
    ks = [("f", 2, "i%d" % k if idx == "int" else "sz i%d" % k) for k in range(n)]
    if rng.random() < 0.5 and n < 60:
        ks.append(("b", 1 << (61 - n if 61 - n < 9 else 9), "i1" if idx == "int" else "sz i1"))
    if rng.random() < 0.5:
        ks.append(("s", 3, "i1" if idx == "int" else "sz i1"))
    u = Lin(rng, ks, idx, coefs)
    ls = list(u.lines)
    E = list(range(1, len(u.es) + 1))
    F = E[:n]
    B = E[n:]
    rng.shuffle(E)
    S = list(E) if rng.random() < 0.7 else [e for e in E if e in B or rng.random() < 0.9]
    F = [e for e in F if e in S]
    ls.append("hs " + " ".join(map(str, S)))
    for _ in range(ops):
        d = {e: rng.randrange(u.dim(e)) for e in S}
        terms = []
        for _ in range(rng.randint(1, 4)):
            w = []
            # words that mostly do not annihilate the state
            cur = dict(d)
            for e in rng.sample(F, rng.choice([1, 1, 2, 3, 5, 9])):
                gs = u.of[e]
                w.insert(0, gs[0] if cur[e] == 0 else gs[1])
                if rng.random() < 0.05:
                    w.insert(0, rng.choice(gs))
            if B and rng.random() < 0.4:
                w += u.word(B, rng.choice([1, 2]))
            w = u.trim(w, 2**20)
            terms.append("+ %s %s" % (rng.choice(u.cf), " ".join(map(str, w))))
        ls.append("op 1 %s %s" % (rng.choice(["fbs", "make", "fbs1"]), " ".join(terms)))
        sts = []
        for k in range(6):
            x = dict(d)
            if k:
                for e in rng.sample(F, 3 * k):
                    x[e] = rng.randint(0, 1)
            sts.append("1,0,1:" + ".".join(str(x[e]) for e in S))
        ls.append("act 1 s%d %s" % (rng.randint(0, 2), " ; ".join(sts)))
    return ls


def boson_levels(rng, ops=10):
    """few bosonic modes with hundreds of levels, powers up to 3, dense and sparse"""
    D = [rng.choice([100, 128, 129, 130, 256, 300, 513]), rng.choice([3, 4, 7])]
    u = Lin(rng, [("b", D[0], "i1"), ("b", D[1], "i2"), ("f", 2, "i1")])
    ls = list(u.lines)
    for _ in range(ops):
        S = [1, 2, 3]
        rng.shuffle(S)
        ls.append("hs " + " ".join(map(str, S)))
        p1, p2 = rng.randint(0, 3), rng.randint(0, 3)
        w1 = [rng.choice(u.of[1])] * p1
        w2 = [rng.choice(u.of[2])] * p2
        w3 = u.word([3], rng.randint(0, 1))
        if w1 + w2 != u.trim(w1 + w2, 2**28):
            w1 = w1[:2]
        ls.append("op 1 %s + 1,0,1 %s + %s %s" % (
            rng.choice(["fbs", "fb", "make"]), " ".join(map(str, w1 + w2 + w3)), rng.choice(u.cf),
            " ".join(map(str, w3))))
        ls.append("act 1 %s%d %s" % (rng.choice("ds"), rng.randint(0, 2),
                                     " ; ".join(u.state(S) for _ in range(14))))
    return ls


def spin_levels(rng, ops=10):
    """spins of large multiplicity, whose ladder factors are roots of large numbers"""
    D = [rng.choice([22, 23, 24, 25, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300]),
         rng.choice([2, 3, 6, 24])]
    u = Lin(rng, [("s", D[0], "i1"), ("s", D[1], "i2"), ("f", 2, "i1")])
    ls = list(u.lines)
    for _ in range(ops):
        S = [1, 2, 3]
        rng.shuffle(S)
        ls.append("hs " + " ".join(map(str, S)))
        w1 = [rng.choice(u.of[1])] * rng.choice([1, 1, 2, 3])
        if rng.random() < 0.3:
            w1.append(rng.choice(u.of[1]))
        w2 = [rng.choice(u.of[2])] * rng.randint(0, 2)
        w = u.trim(w1 + w2, 2**25)
        w3 = u.word([3], rng.randint(0, 1))
        ls.append("op 1 %s + 1,0,1 %s + %s %s" % (
            rng.choice(["fbs", "fs", "make"]), " ".join(map(str, w + w3)), rng.choice(u.cf),
            " ".join(map(str, w3))))
        st = [u.state(S) for _ in range(8)]
        for _ in range(6):
            st.append("1,0,1:" + ".".join(str(rng.randrange(u.dim(e))) for e in S))
        ls.append("act 1 %s%d %s" % (rng.choice("ds"), rng.randint(0, 2), " ; ".join(st)))
    return ls


def unknown(rng, idx="int", coefs="real", ops=30):
    """operators that cannot be made; the previous operator stays"""
    u = Lin(rng, kinds(rng, 7, 10**6, idx), idx, coefs)
    ls = list(u.lines)
    E = list(range(1, len(u.es) + 1))
    for _ in range(ops):
        S = rng.sample(E, rng.randint(1, 4))
        ls.append("hs " + " ".join(map(str, S)))
        for _ in range(3):
            T = list(set(S + ([rng.choice(E)] if rng.random() < 0.5 else [])))
            ls.append("op 1 %s %s" % (rng.choice(list(LISTS) + ["-"]), u.poly(T, rng.randint(1, 3), 3)))
        ls.append("act 1 d1 %s" % " ; ".join(u.state(S, nz=2) for _ in range(2)))
    return ls


def pcoef(u, rng):
    """polynomial of the two arguments"""
    return "/".join("%s,%d,%d" % (rng.choice(u.cf), rng.randint(0, 2), rng.randint(0, 2))
                    for _ in range(rng.choice([1, 1, 2, 3])))


ARGS = ["0,0,1", "1,0,1", "-1,0,1", "2,0,1", "1,0,2", "-3,0,2", "3,0,1"]


def param(rng, coefs="real", idx="int", ops=14, budget=32, units=False):
    """parametric operators: calls of all forms with changing arguments"""
    u = Lin(rng, kinds(rng, rng.randint(4, 6), 10**6, idx, user=False), idx, coefs)
    ls = list(u.lines)
    E = list(range(1, len(u.es) + 1))
    for _ in range(ops):
        rng.shuffle(E)
        S, p = [], 1
        for e in E:
            if p * u.dim(e) <= budget:
                S.append(e)
                p *= u.dim(e)
        if not S:
            continue
        ls.append("hs " + " ".join(map(str, S)))
        if units:
            ls.append("scale " + rng.choice(["-60 60", "-36 0", "40 -40", "-90 80", "-50 20"]))
        n = rng.randint(1, 3)
        for t in range(1, n + 1):
            terms = []
            for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 4)):
                terms.append("+ %s %s" % (pcoef(u, rng), " ".join(map(str, u.word(S, rng.randint(0, 4))))))
            ls.append("pop %d %s" % (t, " ".join(terms)))
        for _ in range(10):
            t = rng.randint(1, n)
            if rng.random() < 0.1:
                ls.append("pcopy %d %d" % (t, rng.randint(1, n)))
            ls.append("pact %d %s%d%d %s %s %s" % (
                t, rng.choice("ds"), rng.choice([0, 1, 2, 2, 3, 4, 5]), rng.randint(0, 5), rng.choice(ARGS),
                rng.choice(ARGS), " ; ".join(u.state(S, nz=1 if units else rng.randint(1, 3))
                                             for _ in range(2))))
    return ls


def store(rng, coefs="real", ops=10, budget=32, conserve=True):
    """actions with all kinds of storage; many operators conserve particle numbers, so
    that sector views can be used"""
    ks = kinds(rng, rng.randint(4, 7), 10**6, "int", user=False, only="fffffbs")
    # mostly spaces without gaps, which sector views require
    if rng.random() < 0.6:
        ks = [(k, p if k == "f" else {1: 2, 3: 4, 5: 4, 6: 8, 9: 2}.get(p, p), i) for k, p, i in ks]
        seen, out = set(), []
        for x in ks:
            key = (x[0], x[2]) if x[0] != "s" else x
            if key not in seen:
                seen.add(key)
                out.append(x)
        ks = out
    u = Lin(rng, ks, "int", coefs)
    ls = list(u.lines)
    E = list(range(1, len(u.es) + 1))
    for _ in range(ops):
        rng.shuffle(E)
        S, p = [], 1
        for e in E:
            if p * u.dim(e) <= budget:
                S.append(e)
                p *= u.dim(e)
        if not S:
            continue
        ls.append("hs " + " ".join(map(str, S)))
        F = [e for e in S if u.es[e - 1][0] == "f"]
        B = [e for e in S if u.es[e - 1][0] != "f"]
        for t in (1, 2):
            terms = []
            net = rng.randint(0, 1)
            for _ in range(rng.randint(1, 4)):
                w = []
                if F:
                    x = rng.random()
                    e, f = rng.choice(F), rng.choice(F)
                    if net == 0:
                        if x < 0.4:
                            w = [u.of[e][0], u.of[e][1]]
                        elif x < 0.8:
                            w = [u.of[e][0], u.of[f][1]]
                    else:
                        w = [u.of[f][0]] if x < 0.8 or not conserve else [u.of[e][0], u.of[f][1]]
                if B and rng.random() < 0.7:
                    w += u.word(B, rng.randint(1, 3))
                terms.append("+ %s %s" % (rng.choice(u.cf), " ".join(map(str, w))))
            ls.append("op %d %s" % (t, " ".join(terms)))
        # superpositions within a sector
        states = []
        for _ in range(3):
            base_ = {e: rng.randrange(u.dim(e)) for e in S}
            st = {}
            for _ in range(rng.randint(1, 4)):
                d = dict(base_)
                occ = [d[e] for e in F]
                rng.shuffle(occ)
                for e, n in zip(F, occ):
                    d[e] = n
                for e in B:
                    d[e] = rng.randrange(u.dim(e))
                st[".".join(str(d[e]) for e in S)] = rng.choice(u.cf)
            states.append(" ".join("%s:%s" % (c, d) for d, c in st.items()))
        ls.append("act %d %s" % (rng.randint(1, 2), " ; ".join(states)))
    return ls


def partition(rng, coefs="real", idx="int", ops=6, budget=32, merges=True, only=None, units=False):
    """Hamiltonians with few conserved quantities, merges with several operators and their
    conjugates, connections; the whole space or a closed part of it"""
    u = Lin(rng, kinds(rng, rng.randint(5, 8), 10**6, idx, user=False, only=only or "fffffbs"), idx, coefs)
    where = {g: e for e, gs in u.of.items() for g in gs}

    def tame(w):
        """one generator per wide space: rounding errors of large matrix elements that should
        cancel would otherwise exceed the library's tolerance"""
        out, used = [], set()
        for x in w:
            e = where[x]
            if u.dim(e) > 3 and e in used:
                continue
            used.add(e)
            out.append(x)
        return out
    ls = list(u.lines)
    E = list(range(1, len(u.es) + 1))
    for _ in range(ops):
        rng.shuffle(E)
        S, p = [], 1
        lim = rng.choice([4, 12, budget, budget])
        for e in E:
            if p * u.dim(e) <= lim:
                S.append(e)
                p *= u.dim(e)
        if not S:
            continue
        ls.append("hs " + " ".join(map(str, S)))
        if units:
            ls.append("scale %d 0" % rng.choice([-40, -40, -40, -36, -30, -10]))

        def ham(n):
            """hops, densities, pairs, single generators"""
            t = []
            for _ in range(n):
                a, b = rng.choice(S), rng.choice(S)
                ga, gb = u.of[a], u.of[b]
                x = rng.random()
                if x < 0.45:
                    w = [ga[0], gb[1] if len(gb) > 1 else gb[0]]
                elif x < 0.6:
                    w = [ga[0], ga[1]]
                elif x < 0.75:
                    w = [ga[0], gb[0]]
                elif x < 0.85:
                    w = u.word(S, 4)
                elif x < 0.9:
                    w = [rng.choice(ga)]
                else:
                    w = [ga[-1], gb[-1]]
                t.append("+ %s %s" % (rng.choice(u.cf), " ".join(map(str, tame(w)))))
            return " ".join(t)
        nH = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        ls.append("herm 1 " + ham(nH) if rng.random() < 0.9 else "op 1 " + ham(nH))
        pairs = rng.randint(1, 3)
        for k in range(pairs):
            x = rng.random()
            if x < 0.4:
                w = "+ %s %d" % (rng.choice(u.cf), rng.choice(u.of[rng.choice(S)]))
            elif x < 0.6:
                w = "+ %s %s" % (rng.choice(u.cf), " ".join(map(str, tame(u.word(S, 2)))))
            elif x < 0.7:
                # many images of a state
                w = " ".join("+ %s %d" % (rng.choice(u.cf), rng.choice(u.of[e])) for e in S for _ in (0, 1))
                w += " " + " ".join("+ %s %s" % (rng.choice(u.cf), " ".join(map(str, tame(u.word(S, 2)))))
                                    for _ in range(rng.randint(0, 14)))
            else:
                w = ham(rng.randint(1, 3))
            ls += ["op %d %s" % (10 + 2 * k, w), "conj %d %d" % (11 + 2 * k, 10 + 2 * k)]
        for r in (1, 2):
            sub = ""
            if r == 2:
                sub = " " + u.state(S, nz=rng.randint(1, 4))
            ls.append("part %d 1 %d%s" % (r, rng.randint(0, 3), sub))
            if rng.random() < 0.3:
                ls.append("conn %d 1" % r)
            if not merges:
                ls.append("conn %d %d" % (r, rng.randint(10, 9 + 2 * pairs)))
                continue
            for m in range(rng.randint(1, 4)):
                k = rng.randrange(pairs)
                a, b = (10, 11) if rng.random() < 0.5 else (11, 10)
                if m == 0 and rng.random() < 0.3:
                    ls.append("pcopy 3 %d" % r)
                ls.append("merge %d %d %d %d" % (r, a + 2 * k, b + 2 * k, rng.randint(0, 2)))
                if rng.random() < 0.5:
                    ls.append("conn %d %d" % (r, rng.choice([1] + list(range(10, 10 + 2 * pairs)))))
    return ls
