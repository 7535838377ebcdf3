"""Scripts for drivers/view.cpp"""
import random

import lingen as g

T = ("Trace_View", "Trace_View.cfg")
MODEL = ["ES <- MES", "Gns <- MGns", "UserActs <- MActs"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
EIG = ["-I/usr/include/eigen3"]
PORT = ["-include", "portable.hpp"]


def model(c):
    q = c.quick
    return c.model("MC_Views", MODEL + ["MaxM = %d" % (4 if q else 6), "Steps = %d" % (5 if q else 8),
                                        "NV = %d" % (3 if q else 4)],
                   ["Coherent", "Shows", "Iterates"], view="MView0", workers=2, heap="4g",
                   label="sizes of sectors, machine of views", spec="MSpec")


def histories(c, num, steps=16):
    """histories of views chosen by TLC, for any list of states"""
    r = c.behaviours("MC_Views", MODEL + ["MaxM = 1", "Steps = %d" % steps, "NV = 5"], num, steps + 2,
                     c.seed, spec="GSpec")
    return r


def play(rng, hist):
    """cell, views of it ...: the last list of states"""
    st = rng.randint(0, 3)
    ls = ["cell 1 %d %d" % (st, rng.randint(1, 10**6))]
    nv = 0
    for h in hist:
        if h[0] == "view":
            ls.append("view %d 1 0 %d %d" % (h[1], h[2], rng.randint(0, 2)))
            nv = h[1]
        elif h[0] == "vcopy":
            ls.append("vcopy %d %d %d" % (h[1], h[2], h[3]))
            nv = h[1]
        elif h[0] == "upd":
            ls.append("upd %d %d %s" % (h[1], rng.randrange(1000), rng.choice(g.ICOEFS)))
        else:
            ls.append("zero %d" % h[1])
        if rng.random() < 0.2 and nv:
            ls.append("look %d" % rng.randint(1, nv))
    for v in range(1, nv + 1):
        ls.append(rng.choice(["nest %d", "look %d", "break %d 2"]) % v)
    return ls


def machine(rng, ops=14, cplx=False):
    """random operations with views of the last list of states; identifiers are new in
    every space"""
    cf = g.ICOEFS if not cplx else g.CCOEFS
    ls, cells, views = [], [], []
    machine.n += 10
    nid = [machine.n]

    def new():
        nid[0] += 1
        machine.n = nid[0]
        return nid[0]
    for _ in range(rng.randint(1, 2)):
        cells.append(new())
        ls.append("cell %d %d %d" % (cells[-1], rng.randint(0, 3), rng.randint(1, 10**6)))
    for k in range(ops):
        x = rng.random()
        if not views or x < 0.2:
            v = new()
            ls.append("view %d %d %d %d %d" % (v, rng.choice(cells), rng.random() < 0.25,
                                               new() if rng.random() < 0.4 else 0, rng.randint(0, 2)))
            views.append(v)
        elif x < 0.3:
            v = new()
            ls.append("vcopy %d %d %d" % (v, rng.choice(views), new()))
            views.append(v)
        elif x < 0.62:
            ls.append("upd %d %d %s" % (rng.choice(views), rng.randrange(1000), rng.choice(cf)))
        elif x < 0.7:
            ls.append("write %d %d %s" % (rng.choice(cells), rng.randrange(1000), rng.choice(cf + ["0,0,1"])))
        elif x < 0.74:
            ls.append("zero %d" % rng.choice(views))
        elif x < 0.82:
            ls.append("look %d" % rng.choice(views))
        elif x < 0.9:
            ls.append("nest %d" % rng.choice(views))
        else:
            ls.append("break %d %d" % (rng.choice(views), rng.randint(0, 5)))
        if rng.random() < 0.15:
            ls.append("out %d %d" % (rng.choice(views), rng.randint(1, 10**6)))
    return ls


machine.n = 0


def universe(rng, nf, others, idx="int"):
    """nf fermions with mixed up indices, other spaces; returns lines, numbers of fermions
    in the layout's order is up to the library"""
    ks = []
    ids = rng.sample(range(0, 99), nf)
    for i in ids:
        ks.append(("f", 2, {"int": "i%d" % i, "si": "s%s i%d" % (rng.choice(["a", "up", "dn"]), i),
                            "dyn": rng.choice(["i%d" % i, "sx i%d" % i, "s%d" % (i + 1)])}[idx]))
    for n, (k, p) in enumerate(others):
        i = rng.randint(0, 50) * 2 + n % 2 if n < 2 else 200 + n
        ks.append((k, p, {"int": "i%d" % i, "si": "sb i%d" % i, "dyn": "sb i%d" % i}[idx]))
    u = g.Lin(rng, ks, idx)
    return u


OTHERS = [[], [("s", 2)], [("b", 4)], [("s", 4), ("s", 2)], [("u", 4)], [("b", 2), ("u", 2)], [("b", 1)],
          [("b", 8)], [("s", 2), ("b", 4), ("u", 2)]]
SPARSE = [[("b", 3)], [("s", 3)], [("b", 5), ("s", 2)], [("u", 6)]]


def hs(rng, u, S):
    S = list(S)
    rng.shuffle(S)
    return "hs " + " ".join(map(str, S))


def sectors(rng, idx, others, sizes, budget=64, cplx=False, mach=0.4):
    """all particle numbers of spaces with the given numbers of modes"""
    u = universe(rng, max(list(sizes) + [1]), others, idx)
    F = [e for e in u.of if u.es[e - 1][0] == "f"]
    O = [e for e in u.of if u.es[e - 1][0] != "f"]
    ls = list(u.lines)
    for M in sizes:
        S = rng.sample(F, M)
        for N in range(M + 2):
            ls.append(hs(rng, u, S + O))
            ls.append("nfs %d" % N)
            if N <= M and rng.random() < mach:
                ls += machine(rng, rng.randint(4, 14), cplx)
    return ls


def invalid(rng, idx, ops=30):
    """descriptions that have to be refused, sparse spaces"""
    u = universe(rng, 7, [("b", 3), ("s", 2), ("u", 6), ("s", 4)], idx)
    F, O = list(range(1, 8)), list(range(8, 12))
    ls = list(u.lines)
    for _ in range(ops):
        S = rng.sample(F, rng.randint(0, 5)) + rng.sample(O, rng.choice([0, 0, 1, 2]))
        ls.append(hs(rng, u, S))
        f = [e for e in S if e in F]
        ls.append("nfs %d" % rng.randint(0, len(f) + 2))
        secs = []
        for _ in range(rng.randint(0, 3)):
            pool = F if rng.random() < 0.3 else f
            q = rng.sample(pool, min(len(pool), rng.randint(0, 3)))
            secs.append("%d %s" % (rng.randint(0, len(q) + (1 if rng.random() < 0.3 else 0)), " ".join(map(str, q))))
        ls.append("nfms " + " ; ".join(secs))
    return ls


def decompose(rng, f, nsec, rest=True):
    """f split into nsec sectors and a rest"""
    f = list(f)
    if nsec == 0:
        return []
    style = rng.randint(0, 2)
    if style == 0:
        rng.shuffle(f)
        owner = [rng.randrange(nsec + (1 if rest else 0)) for _ in f]
    elif style == 1:   # interleaved
        owner = [j % (nsec + (1 if rest else 0)) for j in range(len(f))]
    else:              # runs
        owner = sorted(rng.randrange(nsec + (1 if rest else 0)) for _ in f)
    return [[e for e, o in zip(f, owner) if o == k] for k in range(nsec)]


def multisectors(rng, idx, others, ops=10, maxm=7, budget=96, cplx=False, mach=0.4):
    u = universe(rng, maxm + 1, others, idx)
    F = [e for e in u.of if u.es[e - 1][0] == "f"]
    O = [e for e in u.of if u.es[e - 1][0] != "f"]
    ls = list(u.lines)
    dimO = 1
    for e in O:
        dimO *= u.dim(e)
    for _ in range(ops):
        while True:
            S = rng.sample(F, rng.randint(0, maxm))
            secs = decompose(rng, S, rng.randint(0, 4), rng.random() < 0.7) if rng.random() < 0.97 else []
            ns = [rng.randint(0, len(q)) for q in secs]
            size = dimO << (len(S) - sum(map(len, secs)))
            for q, n in zip(secs, ns):
                size *= binom(len(q), n)
            if size <= budget:
                break
        ls.append(hs(rng, u, S + O))
        d = ["%d %s" % (n, " ".join(map(str, rng.sample(q, len(q))))) for q, n in zip(secs, ns)]
        ls.append("nfms " + " ; ".join(d))
        if rng.random() < mach and (S or O) and size <= 40:
            ls += machine(rng, rng.randint(4, 12), cplx)
    return ls


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def big(rng, multi=False, ops=8, listed=20, limit=60000, idx="int"):
    """many modes: prefixes of iterations, arbitrary states; complete lists of up to
    limit states"""
    u = universe(rng, 63, [("b", 4), ("s", 2), ("b", 256), ("u", 2), ("s", 4)], idx)
    F, O = list(range(1, 64)), list(range(64, 69))
    ls = [x for x in u.lines if x.startswith("es")]
    for k in range(ops):
        M = rng.choice([7, 10, 13, 16, 17, 18, 20, 31, 32, 33, 40, 48, 50, 62, 63, rng.randint(8, 63)])
        S = rng.sample(F, M)
        o, b = [], M
        for e in rng.sample(O, rng.randint(0, 3)):
            if b + u.bits(e) <= 63:
                o.append(e)
                b += u.bits(e)
        small = rng.random() < (0.35 if M > 36 else 0.6)
        extra = 1
        for e in o:
            extra *= u.dim(e)
        if not multi:
            N = rng.choice([0, 1, 2, 3, M - 1, M - 2, M - 3, M]) if small else rng.randint(0, M)
            N = max(0, min(M, N))
            size, desc = binom(M, N) * extra, "nfs %d" % N
        else:
            secs = decompose(rng, S, rng.randint(1, 5))
            if M >= 40 and rng.random() < 0.5:
                # a sector with more than 2^32 states among others
                small, m = False, rng.randint(36, M - 2)
                secs = decompose(rng, S[m:], rng.randint(1, 3))
                secs.insert(rng.randint(0, len(secs)), S[:m])
            ns = [max(0, min(len(q), rng.choice([0, 1, 2, len(q), len(q) - 1]))) if small else
                  len(q) // 2 + rng.randint(-2, 2) if len(q) >= 36 else
                  rng.randint(0, len(q)) for q in secs]
            size = extra << (M - sum(map(len, secs)))
            for q, n in zip(secs, ns):
                size *= binom(len(q), n)
            desc = "nfms " + " ; ".join("%d %s" % (n, " ".join(map(str, q))) for q, n in zip(secs, ns))
        ls.append(hs(rng, u, S + o))
        if size >= 4096 and rng.random() < 0.5:
            ls.append("some 0 150 -1 %d %s" % (rng.randint(1, 10**9), desc))
        else:
            ls.append("some %d %d %d %d %s" % (rng.choice([0, 5, 40]), 25, listed if size <= limit else 0,
                                               rng.randint(1, 10**9), desc))
    return ls


def bigcomp(rng, idx="int", ops=10):
    ls, n = [], 0
    ks = [("b", rng.choice([3, 5, 6, 7, 9, 12, 100, 127, 129, 1000, 4, 16, 1, 2, (1 << 20) + 1, (1 << 16) - 1,
                            1 << 15, 99999]), "i%d" % i) for i in range(12)]
    if rng.random() < 0.4:
        # merged dimensions of many bits
        ks = [("b", rng.choice([1 << 8, 1 << 14, 1 << 15, 1 << 20, 1 << 29, 1 << 30, 1 << 13]) if rng.random() < 0.8
               else rng.choice([3, 9, 1000, (1 << 16) + 1, (1 << 17) - 1]), "i%d" % i) for i in range(12)]
    ks += [("s", p, "i%d" % p) for p in (2, 3, 4, 5, 6)] + [("f", 2, "i%d" % i) for i in range(12)]
    # generators are not needed
    for k, p, i in ks:
        i = i if idx == "int" else "sx " + i
        ls.append("es " + ("f " + i if k == "f" else "%s %d %s" % (k, p, i)))
    for _ in range(ops):
        S, b = [], 0
        for j in rng.sample(range(len(ks)), rng.randint(3, 14)):
            nb = (ks[j][1] - 1).bit_length()
            if b + nb <= 62:
                S.append(j + 1)
                b += nb
        ls.append("hs " + " ".join(map(str, S)))
        dim = 1
        for j in S:
            dim *= ks[j - 1][1]
        if dim >= 4096 and rng.random() < 0.5:
            ls.append("some 0 150 -1 %d comp" % rng.randint(1, 10**9))
        else:
            ls.append("some %d 40 0 %d comp" % (rng.choice([3, 50]), rng.randint(1, 10**9)))
    return ls


def compressed(rng, idx="int", ops=12, budget=60, cplx=False, mach=0.5, user=True):
    ls = []
    u = g.Lin(rng, g.kinds(rng, 9, 10**9, idx, user=user, only="fffbbbbss" + ("u" if user else "")), idx)
    ls += u.lines
    E = list(range(1, len(u.es) + 1))
    for _ in range(ops):
        rng.shuffle(E)
        S, p = [], 1
        lim = rng.choice([1, 6, 20, budget, budget])
        for e in E:
            if p * u.dim(e) <= lim and rng.random() < 0.8:
                S.append(e)
                p *= u.dim(e)
        if not S:
            continue
        ls.append("hs " + " ".join(map(str, S)))
        ls.append("comp")
        if rng.random() < mach:
            ls += machine(rng, rng.randint(5, 12), cplx)
    return ls


def mapped(rng, idx="int", coefs="real", ops=8, budget=48, mach=0.6):
    u = g.Lin(rng, g.kinds(rng, 7, 10**6, idx, user=False, only="fffffbbs"), idx, coefs)
    ls = list(u.lines)
    E = list(range(1, len(u.es) + 1))
    where = {x: e for e, gs in u.of.items() for x in gs}

    def word(S, n):
        out, used = [], set()
        for _ in range(n):
            e = rng.choice(S)
            if u.dim(e) > 3 and e in used:
                continue
            used.add(e)
            gs = u.of[e]
            k = u.es[e - 1][0]
            # mostly raising operators: S+ and creation operators come first
            out.append(gs[0] if rng.random() < 0.75 else rng.choice(gs))
        return out
    for _ in range(ops):
        rng.shuffle(E)
        S, p = [], 1
        for e in E:
            if p * u.dim(e) <= budget:
                S.append(e)
                p *= u.dim(e)
        if not S:
            continue
        ls.append("hs " + " ".join(map(str, S)))
        # small or large amplitudes: powers of this number remain far above the tolerance
        ls.append("unit %d" % rng.choice([0, -8, -8, 15]))
        n = rng.randint(1, 4)
        for t in range(1, n + 1):
            k = rng.choice([1, 1, 2, 2, 3])
            ws = [word(S, rng.choice([1, 1, 2, 2, 3])) for _ in range(k)]
            if rng.random() < 0.3:
                # operators with eigenstates: constants, occupation numbers
                e = rng.choice(S)
                ws[0] = rng.choice([[], [], [u.of[e][0], u.of[e][1]]])
                if rng.random() < 0.5:
                    ws = ws[:1]
            ls.append("op %d %s" % (t, " ".join("+ %s %s" % (rng.choice(u.cf), " ".join(map(str, w))) for w in ws)))
        for _ in range(3):
            x = rng.random()
            if x < 0.25:
                st = {u.state(S).split(":")[1] for _ in range(rng.randint(0, 14))}
                st = list(st)
                rng.shuffle(st)
                ls.append("maplist " + " ".join(st))
            elif x < 0.45:
                t = rng.randint(1, n)
                if rng.random() < 0.4:
                    # a single operator may come with much smaller amplitudes
                    x = [l for l in ls if l.startswith("op %d " % t)][-1]
                    ls += ["unit %d" % rng.choice([-34, -30, 40]), x.replace("op %d " % t, "op 9 "), "mapop 9"]
                else:
                    ls.append("mapop %d" % t)
            else:
                m = rng.choice([0, 1, 2, 2, 3])
                ts = [rng.randint(1, n) for _ in range(m)]
                ls.append("mapcomps %d %s" % (rng.randint(0, 4), " ".join(map(str, ts))))
            if rng.random() < mach:
                ls += machine(rng, rng.randint(4, 12), coefs == "cplx")
    return ls


def ladders(rng, ops=5):
    """Sums of raising operators of large occupation numbers: high powers do not vanish"""
    ks = [("b", rng.choice([6, 7, 8]), "i0"), ("b", rng.choice([3, 6]), "i1"),
          rng.choice([("f", 2, "i0"), ("s", 6, "i2")])]
    rng.shuffle(ks)
    u = g.Lin(rng, ks, "int", "real")
    ls = list(u.lines)
    up = {e: u.of[e][0] for e in range(1, 4)}
    for _ in range(ops):
        S = [1, 2, 3]
        rng.shuffle(S)
        ls.append("hs " + " ".join(map(str, S)))
        ls.append("unit 0")
        n = rng.randint(1, 3)
        for t in range(1, n + 1):
            ws = [[up[e]] for e in rng.sample(S, rng.randint(1, 3))]
            if rng.random() < 0.2:
                ws.append([])
            ls.append("op %d %s" % (t, " ".join("+ %s %s" % (rng.choice(["1,0,1", "1,0,1", "2,0,1"]), " ".join(map(str, w))) for w in ws)))
        for _ in range(2):
            ts = [rng.randint(1, n) for _ in range(rng.choice([1, 1, 2, 3]))]
            N = {1: rng.randint(2, 9), 2: rng.randint(2, 6), 3: rng.randint(2, 5)}[len(ts)]
            ls.append("mapcomps %d %s" % (N, " ".join(map(str, ts))))
            ls += machine(rng, rng.randint(0, 4), False)
    return ls
