"""C05 bases, C06 projectors, C07 caching over histories, C19 iterative solver."""

CONF = {   # generator configuration, behaviours per shard
    "C05": ("SolveGen.cfg", 9),
    "C06": ("SolveGenP.cfg", 8),
    "C07": ("SolveGenH.cfg", 5),
    "C19": ("SolveGenK.cfg", 6),
}


def run(c):
    cfg, cnt = CONF[c.pid]
    mult = 12 if c.thorough else 1
    budget = 1500 if c.thorough else 90

    def shard(k):
        seed = c.seed * 1000 + k
        large = c.pid == "C06" and k in (2, 5)   # some shards with fewer, larger representations
        beh = c.simulate("SolveGenM.tla", "SolveGenPL.cfg" if large else cfg, num=(6 if large else cnt) * mult, depth=90, seed=seed)
        if c.pid == "C19":
            # solution spaces larger than the first rank budgets
            g, r = [("Z3", 4), ("Z5", 3), ("Tri2", 5), ("Z2", 6), ("EmbA", 3), ("S2", 6), ("Cube", 3), ("Z4", 3)][k]
            op = dict(o="T", a=r, b=0, n=0, g=g, s="")
            beh.insert(0, dict(hist=[op] + 2 * [dict(op, o="kry", a=1)]))
        if c.pid == "C19" and k == 0:
            # a constraint matrix beyond the size limit of the direct method
            op = dict(o="T", a=2, b=0, n=0, g="Rub", s="")
            beh.insert(0, dict(hist=[op, dict(op, o="basis", a=1)]))
        for part in range(mult):
            plan = dict(seed=seed * 7 + part, behaviours=beh[part::mult], budget=budget)
            f = c.drive("drv_solve.py", plan, hashseed=seed * 7919 + part * 31 + 1, timeout=budget + 300)
            c.validate("TraceSolve.tla", "TraceSolve.cfg", f, timeout=1200)

    if c.pid == "C19":
        models = [lambda: c.model_check("Krylov.tla", "Krylov.cfg"),
                  lambda: c.model_check("Krylov.tla", "Krylov_broken.cfg", expect_violation="Complete")]
    else:
        models = [lambda: c.model_check("SolCache.tla", "SolCache_t.cfg" if c.thorough else "SolCache.cfg"),
                  lambda: c.model_check("SolCache.tla", "SolCache_brokenkey.cfg", expect_violation="NoStale"),
                  lambda: c.model_check("SolCache.tla", "SolCache_brokenperm.cfg", expect_violation="NoStale")]
    c.assumptions = ["recorded answers are compared with tolerance 4e-3 (8e-3 for the iterative solver); the dimension is exact",
                     "expressions up to dimension 64; tensors up to dimension 64 per group (2304 for permutation groups)",
                     "custom representations only with groups whose generators are integer matrices"]
    jobs = [(lambda k=k: shard(k)) for k in range(8)] + models
    c.parallel(jobs)
