"""Multisectors: sizes, lists, translations by all ranking algorithms, refusals, views as
machines"""
import viewcheck
import viewgen as v


def scripts(rng, idx, cplx, s):
    if rng is None:
        return 26
    if s == -1:
        u = v.universe(rng, 5, [("s", 2)])
        return u.lines, [[v.hs(rng, u, [1, 2, 3, 4, 5, 6]), "nfms 1 1 3 5 ; %d 2" % n] for n in (0, 1)]
    if s % 13 < 7:
        o = v.OTHERS[s % len(v.OTHERS)]
        return v.multisectors(rng, idx, o, cplx=cplx, maxm=rng.choice([5, 7, 9])), "complete multisectors %d" % s
    if s % 13 in (7, 8):
        return v.invalid(rng, idx), "refused %d" % s
    return v.big(rng, True, idx=idx), "many modes %d" % s


def run(c):
    viewcheck.run(c, scripts, 12)
