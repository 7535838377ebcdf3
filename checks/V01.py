"""Sectors with a given number of fermions: sizes, lists, translations by all ranking
algorithms, views as machines"""
import viewcheck
import viewgen as v


def scripts(rng, idx, cplx, s):
    if rng is None:
        return 26
    if s == -1:
        u = v.universe(rng, 4, [("s", 2)])
        return u.lines, [[v.hs(rng, u, [1, 2, 3, 4, 5]), "nfs %d" % n] for n in (1, 2, 3)]
    if s % 13 < 8:
        o = v.OTHERS[s % len(v.OTHERS)]
        sizes = range(0, 7) if s % 3 == 0 else [rng.randint(5, 8)]
        p = 1
        for x in o:
            p *= x[1]
        if p > 4:
            sizes = sorted({min(m, 6) for m in sizes})
        return v.sectors(rng, idx, o, sizes, cplx=cplx), "complete sectors %d" % s
    if s % 13 == 8:
        return v.invalid(rng, idx), "refused %d" % s
    return v.big(rng, idx=idx), "many modes %d" % s


def run(c):
    viewcheck.run(c, scripts, 12)
