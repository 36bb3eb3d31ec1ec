"""C08 generators of the groups, C09 samples."""


def op(o, c="", a=0, b=0, i=0, j=0, st=1):
    return dict(o=o, c=c, a=a, b=b, i=i, j=j, st=st)


def history(asks, big):
    """every constructor with its small parameters, each asked every question"""
    bases = [(c, n, 0) for c, ns in dict(Tri=(1, 3), SO=(1, 2, 3, 4, 5), O=(1, 2, 3, 4), S=(1, 2, 3, 4, 5, 6), Z=(1, 2, 3, 4, 5, 6, 8), C=(1, 2, 3, 4, 5, 6, 7, 8, 12, 15),
             D=(1, 2, 3, 4, 5, 6, 8, 12, 60), SL=(1, 2, 3, 4), GL=(1, 2, 3), U=(1, 2, 3), SU=(1, 2, 3, 4), Sp=(1, 2, 3), Sca=(1, 2, 4)).items() for n in ns]
    bases += [(c, 1, 0) for c in ("Par", "TR", "SO13p", "SO13", "O13", "Lor", "SO11p", "O11", "Cube", "SO2eR3", "O2eR3") + (("Rub",) if big else ())]
    bases += [("DkeR3", k, 0) for k in (3, 4)]
    bases += [("Zks", k, n) for k, n in ((2, 1), (2, 2), (2, 3), (4, 1), (4, 2))] + [("user", n, 0) for n in range(1, 10)]
    out = []
    for k in range(8):  # one history per shard
        h = []
        for c, a, b in bases[k::8]:
            h.append(op("user", a=a) if c == "user" else op("base", c, a, b))
            n = sum(x["o"] in ("base", "user") for x in h)
            h += [op(x, a=3, i=n) for x in asks]
        out.append(dict(hist=h))
    return out


def run(c):
    cfg, cnt = dict(C08=("GroupGen.cfg", 14), C09=("GroupGenS.cfg", 10))[c.pid]
    mult = 12 if c.thorough else 1
    fixed = history(("gens",) if c.pid == "C08" else ("samples", "dirs", "reach"), c.pid == "C08")
    budget = 1500 if c.thorough else 50

    def shard(k):
        seed = c.seed * 1000 + k
        beh = c.simulate("GroupGen.tla", cfg, num=cnt * mult, depth=60, seed=seed)
        beh.insert(0, fixed[k])
        for part in range(mult):
            plan = dict(seed=seed * 7 + part, behaviours=beh[part::mult], budget=budget)
            f = c.drive("drv_groups.py", plan, hashseed=seed * 7919 + part * 31 + 1, timeout=budget + 300)
            c.validate("TraceGroups.tla", "TraceGroups.cfg", f, timeout=1500)

    c.assumptions = ["generators are compared at precision 1/5040, samples at 6000/max entry", "products and embeddings up to dimension 12"]
    c.parallel([(lambda k=k: shard(k)) for k in range(8)])
