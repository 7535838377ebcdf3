"""Mapped views: mappings from lists, operators and compositions; views as machines"""
import viewcheck
import viewgen as v


def scripts(rng, idx, cplx, s):
    if rng is None:
        return 26
    if s == -1:
        u = v.universe(rng, 3, [("b", 3)])
        return u.lines, [[v.hs(rng, u, [1, 2, 3, 4]), "maplist 1.0.0.2 0.0.1.1 0.1.1.0 1.1.1.2"],
                         [v.hs(rng, u, [1, 2, 3, 4]), "op 1 + 1,0,1 %d + 1,0,1 %d" % (u.of[1][0], u.of[4][0]),
                          "op 2 + 1,0,1 %d" % u.of[2][0], "mapcomps 2 1 2"]]
    if s % 5 == 2 and idx == "int" and not cplx:
        return v.ladders(rng), "ladders %d" % s
    return v.mapped(rng, idx, "cplx" if cplx else "real", mach=0.6 if s % 2 else 0.15), "mappings %d" % s


def run(c):
    viewcheck.run(c, scripts, 12)
