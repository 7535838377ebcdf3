"""Scripts for drivers/conc.cpp: shared objects, calls, schedules"""
import lingen as g


def setup(rng, deep=False):
    """deep: a space with large occupation numbers. spaces, generators, expressions. Expressions with even numbers (from 0 on) act in
    the first space, the others in the second one, whose dimensions are powers of 2"""
    if deep:
        ks = [("b", rng.choice([140, 200, 256]), "i%d" % rng.randrange(10))] + [("f", 2, "i0")] * rng.randrange(2)
        if rng.random() < 0.3:
            ks.append(("s", rng.choice([24, 30]), "i1"))
            ks[0] = ("b", rng.choice([4, 6]), "i2")
    else:
        ks = g.kinds(rng, rng.randint(3, 5), 48, "int", user=False)
    have = {(k, i) if k != "s" else (k, p, i) for k, p, i in ks}
    ls = []
    u = g.Lin(rng, ks)
    # all fermions of the second space
    n0 = len(u.es)
    nf = rng.randint(3, 5)
    for k in range(nf):
        u.add("f", 2, "i%d" % (20 + k))
    if rng.random() < 0.5:
        u.add("s", rng.choice([2, 4]), "i20")
    elif rng.random() < 0.5:
        u.add("b", rng.choice([2, 4]), "i20")
    A = list(range(1, n0 + 1))
    B = list(range(n0 + 1, len(u.es) + 1))
    rng.shuffle(A)
    ls += u.lines
    ls.append("hs " + " ".join(map(str, A)))
    ls.append("hsf " + " ".join(map(str, B)))
    for k in range(rng.choice([4, 6])):
        ls.append("expr " + u.poly(A if k % 2 == 0 else B, rng.randint(2, 4), 4))
    # neither of the spaces is sufficient
    ls.append("expr " + u.poly(A, 2, 2))
    ls.append("par %d %d" % (rng.randint(1, nf - 1), rng.randrange(1, 10**6)))
    return ls


KINDS = (["%s A A" % n for n in ("add", "sub", "mul", "eq", "acc", "order")] +
         ["%s A" % n for n in ("muls", "conj", "hc", "neg", "print", "tr", "mkhs", "mkop")] +
         ["hs B", "hsq B", "hsq B", "each B", "each B", "addhs", "act A F", "act A F", "act A F", "actb A",
          "pact A Q X", "pact A Q X", "part F", "part F", "conn A", "conn A", "mkpart V", "merge V",
          "view 8 H", "view 8 H", "view 8 H", "vact A 9", "vact A 9", "vact A 9", "vdst A", "mkview Q H",
          "sector B", "mapper Q A"])


# calls that reach the large numbers
DEEP = ["act A F", "act A F", "act A F", "pact A Q X", "conn A", "sector B", "part F"]


def call(rng, kind):
    out = []
    for t in kind.split():
        out.append({"A": lambda: rng.randrange(6), "B": lambda: rng.randrange(2), "F": lambda: rng.randrange(5),
                    "Q": lambda: rng.randrange(4), "X": lambda: rng.randrange(-2, 3), "H": lambda: rng.randrange(3),
                    "V": lambda: 2 * rng.randrange(2), "8": lambda: rng.randrange(8),
                    "9": lambda: rng.randrange(9)}.get(t, lambda: t)())
    return "call " + " ".join(map(str, out))


def plan(rng, beh, n):
    """a schedule: from a behaviour of the specification or at random"""
    if beh and rng.random() < 0.7:
        return [x if x >= 0 else x for x in rng.choice(beh)]
    return [rng.randrange(n) if rng.random() < 0.8 else -1 - rng.randrange(n) for _ in range(rng.randint(2, 24))]


def calls(rng, n, kinds=None):
    ks = kinds or KINDS
    return [call(rng, rng.choice(ks)) for _ in range(n)]


def coop(rng, beh, rounds, ncalls=10):
    ls = setup(rng)
    for _ in range(rounds):
        ls.append("world")
        # often many calls of the same kind
        some = rng.sample(KINDS, rng.choice([1, 2, 3, len(KINDS)]))
        ls += calls(rng, ncalls, some)
        for _ in range(3):
            n = rng.choice([1, 2, 2, 3, 3])
            ls.append("objects")
            todo = [[rng.randrange(ncalls) for _ in range(rng.randint(1, 3))] for _ in range(n)]
            nested = [rng.randrange(ncalls) for _ in range(rng.randint(1, 4))]
            ls.append("coop %d %s / %s / %s" % (
                rng.choice([1, 1, 2, 3, 5, 9, 17]), " ".join(map(str, plan(rng, beh, n))),
                " ".join(map(str, nested)), " / ".join(" ".join(map(str, t)) for t in todo)))
            if rng.random() < 0.4:
                ls.append("alone")
        ls += ["objects", "alone"]
    return ls


def free(rng, rounds, ncalls=12, reps=3):
    deep = rng.random() < 0.3
    ls = setup(rng, deep)
    for _ in range(rounds):
        ls.append("world")
        some = DEEP if deep else KINDS
        ls += calls(rng, ncalls, rng.sample(some, rng.choice([1, 2, len(some)])))
        ls.append("objects")
        n = rng.choice([2, 3, 4])
        todo = [[rng.randrange(ncalls) for _ in range(rng.randint(2, 5))] for _ in range(n)]
        if rng.random() < 0.6:
            todo = [list(todo[0]) for _ in range(n)]
        ls.append("free %d / %s" % (reps, " / ".join(" ".join(map(str, t)) for t in todo)))
        ls += ["alone", "objects", "alone"]
    return ls
