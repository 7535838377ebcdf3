"""Monomials as value sequences: histories chosen by TLC and at random; after each
call the contents of all monomials and everything observable of one are validated."""
import random

import exprgen

T = ("Trace_Mono", "Trace_Mono.cfg")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
CONSTS = ["U <- UMono"]
SPEC_GENS = ["f 1 i1", "f 0 i1", "b 1 i2", "b 0 i2", "s 2 0 i1", "s 3 2 i1", "u 7 i1"]
NR = 6


def index(rng, idx):
    def i(): return "i%d" % rng.choice([0, 1, 2, 3, 10, 12, -1, -12, 2147483647, -2147483647, 1000000])
    def s(): return "s" + rng.choice(["a", "up", "dn", "x1", "A", "a b".replace(" ", "_"), "+", "(", "", "1", "12", "1,2", "a_long_index_that_needs_memory"])
    if idx == "dyn":
        return " ".join(rng.choice([i, s])() for _ in range(rng.choice([0, 1, 1, 2, 3])))
    return " ".join({"i": i, "s": s}[k]() for k in idx)


def gens(rng, idx, n):
    used, out = set(), []
    while len(out) < n:
        k, x = rng.choice("ffbbssu"), index(rng, idx)
        if k in "fb":
            l = "%s %d %s" % (k, rng.randint(0, 1), x)
        elif k == "s":
            l = "s %d %d %s" % (rng.choice([2, 2, 3, 4, 5, 6, 11, 24]), rng.randint(0, 2), x)
        else:
            l = "u %d %s" % (rng.choice([0, 1, 7, 123]), x)
        if l not in used:
            used.add(l)
            out.append(l)
    return out


def observe(rng):
    return "obs %d %d" % (rng.randint(1, NR), rng.randint(1, NR))


def script(rng, idx, nops, maxlen=40):
    gs = gens(rng, idx, 9)
    ls = ["gen " + g for g in gs]
    few = rng.sample(range(1, 10), 3)
    hi = maxlen + 10
    ln = [0] * (NR + 1)

    def g(): return rng.choice(few) if rng.random() < 0.6 else rng.randint(1, 9)
    def r(): return rng.randint(1, NR)
    for _ in range(nops):
        op = rng.choice(["new", "new", "copy", "cctor", "move", "mctor", "swap", "app", "app", "app", "appm",
                         "appm", "appr", "cat", "cat", "cat", "swg", "swg"])
        t, a = r(), r()
        if rng.random() < 0.15:
            a = t
        if op == "new":
            n = rng.choice([0, 1, 1, 2, 2, 3, 5, 8] if maxlen < 100 else [0, 1, 7, 65, 70, 120])
            ls.append("new %d %s %s" % (t, rng.choice("oiv"), " ".join(str(g()) for _ in range(n))))
            ln[t] = n
        elif op in ("copy", "cctor"):
            ls.append("%s %d %d" % (op, t, a))
            ln[t] = ln[a]
        elif op in ("move", "mctor"):
            if t != a:
                ls.append("%s %d %d" % (op, t, a))
                ln[t], ln[a] = ln[a], 0
        elif op == "swap":
            ls.append("swap %d %d" % (t, a))
            ln[t], ln[a] = ln[a], ln[t]
        elif op == "app":
            ls.append("app %d %d" % (t, g()))
            ln[t] += 1
        elif op == "appm":
            if ln[t] + ln[a] <= maxlen:
                ls.append("appm %d %d" % (t, a))
                ln[t] += ln[a]
        elif op == "appr":
            if t != a and ln[t] + ln[a] <= maxlen:
                ls.append("appr %d %d %d %d" % (t, a, rng.randint(0, hi), rng.randint(0, hi)))
                ln[t] += ln[a]
        elif op == "cat":
            ps, n = [], 0
            for k in range(rng.randint(1, 4)):
                b = r() if rng.random() < 0.8 else t
                p = "m" if k == 3 else rng.choice("gmr")
                ps.append("g:%d" % g() if p == "g" else "m:%d" % b if p == "m" else
                          "r:%d:%d:%d" % (b, rng.randint(0, hi), rng.randint(0, hi)))
                n += 1 if p == "g" else ln[b]
            if n <= maxlen:
                ls.append("cat %d %s" % (t, " ".join(ps)))
                ln[t] = n
        else:
            ls.append("swg %d %d %d" % (t, rng.randint(0, hi), rng.randint(0, hi)))
        if ln[t] > maxlen:
            ls.append("new %d v" % t)
            ln[t] = 0
        if rng.random() < 0.6:
            ls.append("obs %d %d" % (t, r()))
    return ls


def play(rng, hist):
    ls = ["gen " + g for g in SPEC_GENS]
    for h in hist:
        if h[0] == "cat":
            ls.append("cat %d %s" % (h[1], " ".join(":".join(str(x) for x in p) for p in h[2:])))
        else:
            ls.append(" ".join(str(x) for x in h))
        ls.append("obs %d %d" % (h[1], rng.randint(1, 3)))
    return ls


def run(c):
    q = c.quick
    cf = [("i", ["-DCFG=idx_cfg<int>"]), ("si", ["-DCFG=idx_cfg<std::string,int>"]), ("dyn", ["-DCFG=dyn_cfg"]),
          ("san", ["-DCFG=idx_cfg<int>"] + SAN)]
    # generators without indices
    cf.append(("0", ["-DCFG=idx_cfg<>"]))
    if not q:
        cf += [("s", ["-DCFG=idx_cfg<std::string>"]), ("ii", ["-DCFG=idx_cfg<int,int>"])]
    bins = {n: c.build("m_" + n, "mono.cpp", f) for n, f in cf}
    fs = [c.model("MC_Monos", ["U <- UMono2", "MRegs = {1, 2}", "MaxLen = 3", "MaxOps = %d" % (3 if q else 5)],
                  ["Ordered", "TextIdentifies", "ConcatAssociates", "SplitJoins"], label="short monomials", view="View")]

    def one(k, s):
        rng = random.Random("E09-%d-%s-%d" % (c.seed, k, s))
        c.conform(bins[k].result(), *T, "\n".join(script(rng, {"san": "i", "0": ""}.get(k, k), 150 if q else 500)) + "\n",
                  "monomials %s %d" % (k, s))

    def hist(k, s):
        hs = c.behaviours("MC_Monos", ["U <- UMono", "MRegs = {1, 2, 3}", "MaxLen = 24", "MaxOps = 30"],
                          6 if q else 40, 32, c.seed * 100 + s, spec="GSpec")
        rng = random.Random("E09-%d-h-%d" % (c.seed, s))
        for n, h in enumerate(hs):
            c.conform(bins[k].result(), *T, "\n".join(play(rng, h)) + "\n", "history chosen by TLC %d.%d" % (s, n))
    def long_(k, s):
        rng = random.Random("E09-%d-l%s-%d" % (c.seed, k, s))
        c.conform(bins[k].result(), *T, "\n".join(script(rng, {"san": "i", "0": ""}.get(k, k), 60 if q else 200, 270)) + "\n",
                  "long monomials %s %d" % (k, s))
    for s in range(c.more(12, 16)):
        for k in bins:
            if k == "0" and s % 4:
                continue
            fs.append(c.pool.submit(one, k, s))
            if s % 4 == 0:
                fs.append(c.pool.submit(long_, k, s))
    for s in range(c.more(3, 4)):
        fs.append(c.pool.submit(hist, "san" if s % 2 else "i", s))
    c.wait(fs)
