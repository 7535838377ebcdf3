"""User-defined algebras given by tables of rules, for drivers/expr.cpp and the
specification. Numbers are (numerator, denominator) pairs; generators are numbered in
ascending order within the algebra."""
import random


class Alg:
    def __init__(self, name, n):
        self.name, self.n = name, n
        self.swaps, self.reds, self.pows, self.conjs = {}, {}, {}, {}

    def numbers(self):
        for c, k, l in self.swaps.values():
            yield c
            yield k
            for x, _ in l:
                yield x
        for d in (self.reds, self.pows, self.conjs):
            for k, l in d.values():
                yield k
                for x, _ in l:
                    yield x

    def swap(self, h, g, c, k=0, l=()):
        assert h > g
        self.swaps[h, g] = (c, k, list(l))

    def red(self, h, g, k=0, l=()):
        """h g -> k + l, for any order of h and g"""
        if h > g:
            self.swaps[h, g] = (0, k, list(l))
        else:
            self.reds[h, g] = (k, list(l))

    def pow(self, g, p, k=0, l=()):
        self.pows[g, p] = (k, list(l))

    def conj(self, g, l, k=0):
        self.conjs[g] = (k, list(l))


def clifford(rng, n):
    a = Alg("clifford", n)
    sg = [rng.choice([1, -1]) for _ in range(n)]
    for h in range(n):
        a.red(h, h, sg[h])
        if sg[h] < 0:
            a.conj(h, [(-1, h)])
        for g in range(h):
            a.swap(h, g, -1)
    return a


def grassmann(rng, n):
    a = Alg("grassmann", n)
    for h in range(n):
        a.red(h, h, 0)
        for g in range(h):
            a.swap(h, g, -1)
    return a


def qplane(rng, n):
    a = Alg("q-plane", n)
    for h in range(n):
        for g in range(h):
            a.swap(h, g, rng.choice([2, -1, (1, 2), -2, (-1, 2)]))
    if rng.random() < 0.5:
        g = rng.randrange(n)
        a.pow(g, 3)
    return a


def sl2(rng, n):
    a = Alg("sl2", 3)
    p = [0, 1, 2]
    rng.shuffle(p)
    e, f, h = p
    br = {(h, e): [(2, e)], (h, f): [(-2, f)], (e, f): [(1, h)]}
    for (x, y), l in list(br.items()):
        br[y, x] = [(-c, g) for c, g in l]
    for x in range(3):
        for y in range(x):
            a.swap(x, y, 1, 0, br[x, y])
    a.conj(e, [(1, f)])
    a.conj(f, [(1, e)])
    return a


def so3(rng, n):
    a = Alg("so3", 3)
    eps = {(0, 1): (1, 2), (1, 2): (1, 0), (2, 0): (1, 1)}
    for x in range(3):
        for y in range(x):
            c, z = eps[x, y] if (x, y) in eps else (-eps[y, x][0], eps[y, x][1])
            a.swap(x, y, 1, 0, [(c, z)])
        a.conj(x, [(-1, x)])
    return a


def weyl(rng, n):
    """x_1..x_k < d_1..d_k, [d_i, x_i] = r"""
    k = max(1, n // 2)
    a = Alg("weyl", 2 * k)
    for i in range(k):
        r = rng.choice([1, 2, (1, 2), -1])
        a.swap(k + i, i, 1, r)
        a.conj(i, [(1, k + i)])
        a.conj(k + i, [(1, i)])
    return a


def qweyl(rng, n):
    """d x = q x d + 1"""
    a = Alg("q-weyl", 2)
    a.swap(1, 0, rng.choice([2, -1, (1, 2), -2]), rng.choice([1, 1, 3]))
    a.conj(0, [(1, 1)])
    a.conj(1, [(1, 0)])
    return a


def projectors(rng, n):
    a = Alg("projectors", n)
    for h in range(n):
        for g in range(n):
            if g == h:
                a.red(h, g, 0, [(1, h)])
            else:
                a.red(h, g)
    return a


def matrix_units(rng, n):
    """E_ij of 2x2 matrices in a random order"""
    a = Alg("matrix units", 4)
    p = [(i, j) for i in (0, 1) for j in (0, 1)]
    rng.shuffle(p)
    for x in range(4):
        for y in range(4):
            if p[x][1] == p[y][0]:
                a.red(x, y, 0, [(1, p.index((p[x][0], p[y][1])))])
            else:
                a.red(x, y)
        a.conj(x, [(1, p.index((p[x][1], p[x][0])))])
    return a


def quaternions(rng, n):
    """i, j, k with ij = k"""
    a = Alg("quaternions", 3)
    t = {(0, 1): (1, 2), (1, 2): (1, 0), (2, 0): (1, 1)}
    for x in range(3):
        for y in range(3):
            if x == y:
                a.red(x, y, -1)
            else:
                c, z = t[x, y] if (x, y) in t else (-t[y, x][0], t[y, x][1])
                a.red(x, y, 0, [(c, z)])
        a.conj(x, [(-1, x)])
    return a


def fusion(rng, n):
    """commutative: x x = a + b x for each generator (e.g. Hecke, idempotents)"""
    a = Alg("quadratic", n)
    for x in range(n):
        a.red(x, x, rng.choice([0, 1, 2, -1, (1, 2)]), [(rng.choice([1, -1, 2, (1, 2)]), x)])
    return a


def cyclic(rng, n):
    """commutative: x^p = a + b y, y central without relations of its own or x itself"""
    a = Alg("powers", n)
    for x in range(n):
        p = rng.choice([3, 3, 4, 5])
        k = rng.choice([0, 1, 2, (1, 2), -1])
        l = rng.choice([[], [], [(rng.choice([1, 2, -1, (1, 2)]), x)]])
        if l and l[0][1] == x and p > 5:
            l = []
        a.pow(x, p, k, l)
    return a


def roots(rng, n):
    """commutative: x^p = a combination of any generators (p = 2: a product, else a power)"""
    a = Alg("roots", n)
    for x in range(n):
        p = rng.choice([3, 3, 3, 4, 2, 0])
        ys = rng.sample(range(n), rng.randint(1, min(n, 2)))
        l = [(rng.choice([1, 1, 2, -1, (1, 2)]), y) for y in ys]
        k = rng.choice([0, 0, 1, -1])
        if p == 2:
            a.red(x, x, k, l)
        elif p:
            a.pow(x, p, k, l)
    return a


def clock(rng, n):
    """x_i x_j = -x_j x_i (i > j), x^4 = 1"""
    a = Alg("clock", n)
    for h in range(n):
        for g in range(h):
            a.swap(h, g, -1)
        a.pow(h, 4, 1)
    return a


def shifts(rng, n):
    """y x = x y + y: the affine Lie algebra, y conjugate to nothing"""
    a = Alg("affine", 2)
    if rng.random() < 0.5:
        a.swap(1, 0, 1, 0, [(1, 1)])
    else:
        a.swap(1, 0, 1, 0, [(rng.choice([1, 2, -1]), 0)])
    return a


def heisenberg(rng, n):
    """central element as a generator: [p, x] = z; order random"""
    a = Alg("heisenberg", 3)
    p = [0, 1, 2]
    rng.shuffle(p)
    x, y, z = p
    if x > y:
        a.swap(x, y, 1, 0, [(1, z)])
    else:
        a.swap(y, x, 1, 0, [(-1, z)])
    a.conj(z, [(-1, z)])
    return a


def laurent(rng, n):
    """commuting mutually inverse generators"""
    a = Alg("laurent", 2)
    a.red(0, 1, 1)
    a.conj(0, [(1, 1)])
    a.conj(1, [(1, 0)])
    return a


def complement(rng, n):
    """commuting idempotents with x* = 1 - x"""
    a = Alg("complement", min(n, 2))
    for x in range(a.n):
        a.red(x, x, 0, [(1, x)])
        a.conj(x, [(-1, x)], 1)
    return a


def susy(rng, n):
    """Clifford generators plus a nilpotent one anticommuting with them"""
    a = clifford(rng, n)
    a.name = "degenerate clifford"
    a.reds[0, 0] = (0, [])
    a.conjs.pop(0, None)
    return a


def _unimodular(rng, n, k, ops):
    """n x n integer matrix of determinant +-1 whose first k rows are left alone, and its
    inverse"""
    u = [[int(i == j) for j in range(n)] for i in range(n)]
    v = [r[:] for r in u]
    for _ in range(ops):
        i = rng.randrange(k, n)
        j = rng.choice([x for x in range(n) if x != i])
        c = rng.choice([1, -1])
        # u: row i += c row j;  v: column j -= c column i
        for x in range(n):
            u[i][x] += c * u[j][x]
            v[x][j] -= c * v[x][i]
    return u, v


# products of basis elements of 2x2 matrices: units, or identity and units
_UNITS = [(0, 0), (0, 1), (1, 0), (1, 1)]
_E = {p: [[int((i, j) == p) for j in (0, 1)] for i in (0, 1)] for p in _UNITS}


def _mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in (0, 1)) for j in (0, 1)] for i in (0, 1)]


def _basis(rng, one, ops):
    """a basis of the 2x2 matrices and the function that expands matrices in it"""
    b0 = [[[1, 0], [0, 1]]] + [_E[p] for p in _UNITS[:3]] if one else [_E[p] for p in _UNITS]
    u, v = _unimodular(rng, 4, 1 if one else 0, ops)
    b = [[[sum(u[x][y] * b0[y][i][j] for y in range(4)) for j in (0, 1)] for i in (0, 1)] for x in range(4)]

    def expand(m):
        c0 = [m[1][1], m[0][0] - m[1][1], m[0][1], m[1][0]] if one else [m[i][j] for i, j in _UNITS]
        return [sum(c0[y] * v[y][x] for y in range(4)) for x in range(4)]
    return b, expand


def combinations(rng, n):
    """an algebra of 2x2 matrices: products are combinations of several generators (and, if
    the identity is not one of them, a constant)"""
    one = rng.random() < 0.5
    b, expand = _basis(rng, one, rng.choice([2, 3, 4, 5]))
    k = 1 if one else 0
    a = Alg("combinations", 4 - k)

    def lin(m):
        c = expand(m)
        return (c[0] if one else 0), [(c[k + g], g) for g in range(a.n) if c[k + g]]
    for x in range(a.n):
        for y in range(a.n):
            c, l = lin(_mm(b[k + x], b[k + y]))
            a.red(x, y, c, l)
        t = b[k + x]
        c, l = lin([[t[0][0], t[1][0]], [t[0][1], t[1][1]]])
        a.conj(x, l, c)
    return a


def brackets(rng, n):
    """the Lie algebra of 2x2 matrices in a basis where commutators have several terms"""
    one = rng.random() < 0.5
    b, expand = _basis(rng, one, rng.choice([2, 3, 4]))
    k = 1 if one else 0
    a = Alg("brackets", 4 - k)
    for x in range(a.n):
        for y in range(x):
            p, q = _mm(b[k + x], b[k + y]), _mm(b[k + y], b[k + x])
            c = expand([[p[i][j] - q[i][j] for j in (0, 1)] for i in (0, 1)])
            a.swap(x, y, 1, c[0] if one else 0, [(c[k + g], g) for g in range(a.n) if c[k + g]])
    return a


ALGS = [clifford, grassmann, qplane, sl2, so3, weyl, qweyl, projectors, matrix_units,
        quaternions, fusion, cyclic, roots, clock, shifts, heisenberg, laurent, complement, susy,
        combinations, brackets]
NO_CONJ = ("q-plane", "affine", "brackets")


def num(x):
    a, b = x if isinstance(x, tuple) else (x, 1)
    return a, b


class Setup:
    """Universe with some algebras (and predefined generators): declaration lines"""

    def __init__(self, rng, algs, idx="int", ferm=0, bos=0, half=0, reals=False, unreduced=False):
        self.rng = rng
        lines, kind = [], []
        ids = rng.sample([0, 1, 2, 5, 7, 2147483646, 2147483647], len(algs))
        glob = []
        for a, i in zip(algs, ids):
            off = rng.randint(-2, 2)
            glob.append([len(lines) + k + 1 for k in range(a.n)])
            for k in range(a.n):
                if idx == "int":
                    ix = "i%d" % (off + 2 * k)
                elif idx == "si":
                    # strings first: order by string, then integer
                    ix = "s%s i%d" % ("abcdefgh"[k // 2], k)
                else:
                    ix = ["", "i%d" % k, "i%d sq" % k, "i%d sx i1" % k][1 if k < 2 else 2 + (k > 4)]
                lines.append("gen u %d %s" % (i, ix))
        npre = len(lines)
        for k in range(ferm):
            for d in (0, 1):
                lines.append("gen f %d %s" % (d, self._ix(idx, k)))
        for k in range(bos):
            for d in (0, 1):
                lines.append("gen b %d %s" % (d, self._ix(idx, k)))
        for k in range(half):
            for c in (0, 1, 2):
                lines.append("gen s 2 %d %s" % (c, self._ix(idx, k)))
        self.n = len(lines)

        def nm(x):
            a, b = num(x)
            if unreduced and rng.random() < 0.5:
                k = rng.choice([2, -1, 3, -2, 4])
                a, b = a * k, b * k
            return "%d,0,%d%s" % (a, b, ",d" if reals and rng.random() < 0.5 else "")
        rules = []
        for a, gl in zip(algs, glob):
            def lin(l):
                l = list(l)
                if l and rng.random() < 0.2:
                    # a generator may be named repeatedly
                    k = rng.randrange(len(l))
                    c, g = num(l[k][0]), l[k][1]
                    x = rng.choice([1, -1, 2])
                    l[k] = ((c[0] - x * c[1], c[1]), g)
                    l.insert(rng.randint(0, len(l)), (x, g))
                return " ".join("%s %d" % (nm(c), gl[g]) for c, g in l)
            for (h, g), (c, k, l) in a.swaps.items():
                rules.append("rule swap %d %d %s %s %s" % (gl[h], gl[g], nm(c), nm(k), lin(l)))
            for (h, g), (k, l) in a.reds.items():
                rules.append("rule red %d %d %s %s" % (gl[h], gl[g], nm(k), lin(l)))
            for (g, p), (k, l) in a.pows.items():
                rules.append("rule pow %d %d %s %s" % (gl[g], p, nm(k), lin(l)))
            for g, (k, l) in a.conjs.items():
                rules.append("rule conj %d %s %s" % (gl[g], nm(k), lin(l)))
        self.lines = lines + rules
        self.algs = algs
        self.conj = not any(a.name in NO_CONJ for a in algs)
        self.integer = not any(isinstance(x, tuple) for a in algs for x in a.numbers())
        self.nuser = npre
        self.groups = glob + [list(range(npre + 1, self.n + 1))] if self.n > npre else glob

    def _ix(self, idx, k):
        return {"int": "i%d" % k, "si": "sa i%d" % k, "dyn": "i%d" % k}[idx]

    def header(self):
        return list(self.lines)

    def word(self, rng, n, *_):
        v = rng.random()
        if v < 0.5:
            gs = rng.choice(self.groups)
        else:
            gs = range(1, self.n + 1)
        if n > 2 and rng.random() < 0.3:
            # runs
            w = []
            while len(w) < n:
                w += [rng.choice(list(gs))] * rng.randint(1, 4)
            return w[:n]
        return [rng.choice(list(gs)) for _ in range(n)]
