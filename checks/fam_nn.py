"""C11 allocation, C12 gating, C13 bilinear layers, C14 linear layers, C15 networks, C18 augmentation."""
CONF = {  # generator configuration, behaviours per shard, depth
    "C11": ("NetGenA.cfg", 4), "C12": ("NetGenG.cfg", 8), "C13": ("NetGenB.cfg", 6), "C14": ("NetGenL.cfg", 8), "C15": ("NetGenN.cfg", 6), "C18": ("NetGenU.cfg", 8),
}


def run(c):
    cfg, cnt = CONF[c.pid]
    mult = 12 if c.thorough else 1
    budget = 1500 if c.thorough else 35

    def shard(k):
        seed = c.seed * 1000 + k
        beh = c.simulate("NetGen.tla", cfg, num=cnt * mult, depth=120, seed=seed)
        for part in range(mult):
            plan = dict(seed=seed * 7 + part, behaviours=beh[part::mult], budget=budget)
            f = c.drive("drv_net.py", plan, hashseed=seed * 7919 + part * 31 + 1, timeout=budget + 300)
            c.validate("TraceNet.tla", "TraceNet.cfg", f, timeout=1500)

    models = []
    if c.pid == "C11":
        models = [lambda: c.model_check("AllocModel.tla", "AllocModel.cfg"),
                  lambda: c.model_check("AllocModel.tla", "AllocModel_broken.cfg", expect_violation="NeverOver")]
    c.assumptions = ["real groups of dimension up to 8"]
    c.parallel([(lambda k=k: shard(k)) for k in range(8)] + models)
