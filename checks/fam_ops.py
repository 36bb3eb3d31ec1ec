"""C10 linear operators against dense matrix algebra."""


def run(c):
    mult = 12 if c.thorough else 1
    budget = 1500 if c.thorough else 50

    def shard(k):
        seed = c.seed * 1000 + k
        beh = c.simulate("OpGen.tla", "OpGen.cfg", num=14 * mult, depth=80, seed=seed)
        for part in range(mult):
            plan = dict(seed=seed * 7 + part, behaviours=beh[part::mult], budget=budget)
            f = c.drive("drv_ops.py", plan, hashseed=seed * 7919 + part * 31 + 1, timeout=budget + 300)
            c.validate("TraceOps.tla", "TraceOps.cfg", f, timeout=1500)

    c.assumptions = ["entries are Gaussian integers up to 2000 and operators are at most 12 by 12, so float32 arithmetic is exact"]
    c.parallel([(lambda k=k: shard(k)) for k in range(8)])
