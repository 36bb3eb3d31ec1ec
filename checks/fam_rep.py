"""C01-C04: the representation algebra (RepMachine, RepCanon)."""

CONF = {
    "C01": dict(obs=["rho"], eqof="rep"),
    "C02": dict(obs=["drho"], eqof="rep"),
    "C03": dict(obs=["canon", "eq"], eqof="canon"),
    "C04": dict(obs=["eq"], eqof="rep", groups=True),
}
CNT = {"C01": 8, "C02": 8, "C03": 14, "C04": 30}


def run(c):
    conf = CONF[c.pid]
    mult = 12 if c.thorough else 1
    budget = 1500 if c.thorough else 75

    def shard(k):
        seed = c.seed * 1000 + k
        beh = c.simulate("RepGenM.tla", "RepGen.cfg", num=CNT[c.pid] * mult, depth=60, seed=seed)
        if c.pid in ("C01", "C02"):  # long programs over two groups and small representations
            beh = [x for p in zip(beh, c.simulate("RepGenM.tla", "RepGenL.cfg", num=CNT[c.pid] * mult, depth=120, seed=seed + 500)) for x in p]
        for part in range(mult):
            bs = beh[part::mult]
            plan = dict(seed=seed * 7 + part, behaviours=bs, budget=budget, nel=2, **conf)
            f = c.drive("drv_rep.py", plan, hashseed=seed * 7919 + part * 31 + 1, timeout=budget + 300)
            c.validate("TraceRep.tla", "TraceRep.cfg", f)

    jobs = [lambda: c.model_check("RepCanon.tla", "RepCanon_t.cfg" if c.thorough and c.pid == "C03" else "RepCanon_q.cfg",
                                  workers=2, timeout=3000),
            lambda: c.model_check("RepCanon.tla", "RepCanon_broken.cfg", expect_violation="Unique")] if c.pid in ("C01", "C03") else \
           [lambda: c.model_check("RepCanon.tla", "RepCanon_q.cfg", workers=2)]
    jobs = [(lambda k=k: shard(k)) for k in range(8)] + jobs
    c.assumptions = ["group elements fed to the representations are integer matrices (unimodular, signed permutations); "
                     "real valued elements are covered by C05/C15", "expressions up to 6 leaves and dimension 40"]
    c.parallel(jobs)
