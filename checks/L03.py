"""Storage of states: operators act on all pairs of storage kinds; histories of updates
of vectors of every kind, chosen by TLC, against the machine of StateVec."""
import random

import lingen as g

E3 = ["-I/usr/include/eigen3", "-DEIGEN"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
KINDS = ["vec", "eigen", "segment", "column", "map", "block", "rowblock", "rowcolumn", "blockblock",
         "segsegment"]


def history(rng, n, kinds, ops, vals):
    R = len(kinds)
    ls = ["regs %d %s" % (n, " ".join(kinds))]
    sp = [k == "sparse" for k in kinds]
    cur = [[0] * n for _ in kinds]  # real integer parts, to make cancellations
    for _ in range(ops):
        r = rng.randint(1, R)
        i, j = rng.randrange(n), rng.randrange(n)
        x = rng.random()
        if x < 0.5:
            ls.append("upd %d %d %s" % (r, i, rng.choice(vals)))
        elif x < 0.58:
            # back to zero
            k = rng.choice(vals)
            ls += ["zero %d" % r] * (rng.random() < 0.2) + \
                  ["upd %d %d %s" % (r, i, k), "upd %d %d %s" % (r, j, rng.choice(vals)),
                   "upd %d %d %s" % (r, i, neg(k))]
        elif x < 0.66:
            ls.append("set %d %d %s" % (r, i, rng.choice(vals)))
        elif x < 0.72:
            ls.append("ref %d %d %d" % (r, i, j))
        elif x < 0.78:
            ls.append("touch %d %d" % (r, i))
        elif x < 0.81:
            ls.append("zero %d" % r)
        elif x < 0.86:
            ls.append("like %d" % r)
        elif x < 0.93:
            if sp[r - 1]:
                ls.append(rng.choice(["prune %d" % r, "prunep %d %s" % (r, rng.choice(vals))]))
        else:
            a = rng.choice([k + 1 for k in range(R) if kinds[k] == kinds[r - 1]])
            ls.append("%s %d %d" % (rng.choice(["copy", "move"]), r, a))
        if sp[r - 1] and rng.random() < 0.06:
            ls.append("tiny %d %d %d %d" % (r, i, rng.choice([47, 50, 60, 90]), rng.choice([1, -1])))
        if rng.random() < 0.03:
            # what is left is much smaller than what has been there
            k = rng.choice([1, -1])
            ls += ["zero %d" % r, "upd %d %d %d,0,1" % (r, i, k * 536870913),
                   "upd %d %d %d,0,1" % (r, i, -k * 536870912)]
        # amplitudes are halved from time to time to stay small
        if rng.random() < 0.03:
            ls.append("zero %d" % rng.randint(1, R))
    return ls


def neg(c):
    a, b, d = c.split(",")
    return "%d,%d,%s" % (-int(a), -int(b), d)


VALS = {"real": ["0,0,1", "1,0,1", "-1,0,1", "1,0,2", "-3,0,4", "2,0,1"],
        "cplx": ["0,0,1", "1,0,1", "0,1,1", "-1,-1,1", "1,0,2", "0,-3,4"],
        "int": ["0,0,1", "1,0,1", "-1,0,1", "2,0,1", "-2,0,1"]}


def tlc_history(c, num, ops, seed):
    hs = c.behaviours("MC_StateVec", ["VRegs = {1,2,3,4}", "SparseRegs = {1,2}", "Size = 4",
                                      "MaxOps = %d" % ops], num, ops + 2, seed, spec="GSpec")
    out = []
    for h in hs:
        ls = []
        for name, a in h:
            if name in ("upd", "set"):
                ls.append("%s %d %d %d,0,1" % (name, a[0], a[1], a[2]))
            elif name == "prunep":
                ls.append("%s %d %d,0,1" % (name, a[0], a[1]))
            else:
                ls.append(" ".join([name] + [str(x) for x in a]))
        out.append(ls + ["zero %d" % r for r in (1, 2, 3, 4)])
    return out


def run(c):
    q = c.quick
    b = {"real": c.build("st_real", "store.cpp", ["-DSCALAR=double"] + E3[:1]),
         "v_real": c.build("v_real", "svec.cpp", ["-DSCALAR=double"] + E3),
         "v_cplx": c.build("v_cplx", "svec.cpp", ["-DSCALAR=std::complex<double>"] + E3),
         "v_int": c.build("v_int", "svec.cpp", ["-DSCALAR=int"] + E3)}
    if not q:
        b["cplx"] = c.build("st_cplx", "store.cpp", ["-DSCALAR=std::complex<double>"] + E3[:1])
        b["mix"] = c.build("st_mix", "store.cpp", ["-DSCALAR=double", "-DELEMENT=std::complex<double>"] + E3[:1])
        b["san"] = c.build("st_san", "store.cpp", ["-DSCALAR=double"] + E3[:1] + SAN)
        b["v_san"] = c.build("v_san", "svec.cpp", ["-DSCALAR=double"] + E3 + SAN)
        b["v_rat"] = c.build("v_rat", "svec.cpp", ["-DSCALAR=boost::rational<int>", "-DWITH_BOOST_RATIONAL"])
    fs = [c.model("MC_StateVec", ["VRegs = {1,2}", "SparseRegs = {1}", "Size = 2", "MaxOps = %d" % (3 if q else 4)],
                  ["StoredOk", "StoredExact", "Pruned"], label="two registers", workers=2, heap="4g")]

    def act(k, s):
        rng = random.Random("L03-%d-%s-%d" % (c.seed, k, s))
        c.conform(b[k].result(), "Trace_LinOp", "Trace_LinOp.cfg", "\n".join(
            g.store(rng, "cplx" if k == "cplx" else "real", 10 if q else 30)) + "\n", "all storages %s %d" % (k, s))

    def vec(k, s):
        rng = random.Random("L03v-%d-%s-%d" % (c.seed, k, s))
        kd = ["sparse", "sparse"] + (["vec", "vec"] if k == "v_rat" else rng.sample(KINDS, 3) +
                                     [rng.choice(KINDS)])
        n = rng.choice([1, 2, 3, 5, 8, 40]) if s % 3 == 0 else rng.randint(3, 8)
        c.conform(b[k].result(), "Trace_StateVec", "Trace_StateVec.cfg", "\n".join(
            history(rng, n, kd, 250 if q else 500,
                    VALS["cplx" if k == "v_cplx" else "int" if k in ("v_int", "v_rat") else "real"])) + "\n",
                  "history %s %d" % (k, s))

    def tl(k, ls):
        for kd in (["sparse", "sparse", "segment", "segment"], ["sparse", "sparse", "block", "block"],
                   ["sparse", "sparse", "vec", "vec"])[:1 if q else 3]:
            c.conform(b[k].result(), "Trace_StateVec", "Trace_StateVec.cfg",
                      "\n".join(["regs 4 " + " ".join(kd)] + ls) + "\n", "histories chosen by TLC")
    for k in b:
        for s in range(c.more(12, 30)):
            fs.append(c.pool.submit(vec if k[0] == "v" else act, k, s))
    if q:
        fs += [c.pool.submit(act, "real", 50 + s) for s in range(4)]
    hs = tlc_history(c, 40 if q else 300, 14, c.seed)
    for i in range(0, len(hs), 20):
        fs.append(c.pool.submit(tl, "v_int", sum(hs[i:i + 20], [])))
    c.wait(fs)
