"""Compressed views: translations of all states of small spaces, of arbitrary states of
large ones, views as machines"""
import viewcheck
import viewgen as v


def scripts(rng, idx, cplx, s):
    if rng is None:
        return 26
    if s == -1:
        u = v.universe(rng, 1, [("b", 3), ("s", 3)])
        return u.lines, [[v.hs(rng, u, [1, 2, 3]), "comp"], [v.hs(rng, u, [1, 3]), "comp"]]
    if s % 13 < 9:
        return v.compressed(rng, idx, cplx=cplx, mach=0.6 if s % 2 else 0.2,
                            budget=60 if s % 3 else 150), "complete spaces %d" % s
    return v.bigcomp(rng, idx), "large spaces %d" % s


def run(c):
    viewcheck.run(c, scripts, 12)
