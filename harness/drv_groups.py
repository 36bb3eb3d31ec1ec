"""Builds the groups of a GroupMachine history and records their generators (C08) and samples (C09)."""
import os
import sys
os.environ["XLA_FLAGS"] = os.environ.get("XLA_FLAGS", "") + " --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"  # many small compilations
from lib import *
plan = json.load(open(sys.argv[1]))
try:
    import jax.numpy as jnp
    import emlp.groups as EG
    from emlp.reps.linear_operator_base import LinearOperator
except Exception as ex:
    main(lambda plan, rec: (_ for _ in ()).throw(ex))
    sys.exit(0)

S0 = 5040
BATCH = 80
MAKE = {"Tri": "Trivial", "Sca": "Scaling", "Par": "Parity", "TR": "TimeReversal", "Lor": "Lorentz", "Rub": "RubiksCube", "Zks": "ZksZnxZn"}
NOARG = {"Par", "TR", "SO13p", "SO13", "O13", "Lor", "SO11p", "O11", "Cube", "Rub", "SO2eR3", "O2eR3"}
USER = {1: dict(discrete_generators=np.array([[[1., 1], [0, 1]]])), 2: dict(discrete_generators=np.array([[[0., -1], [1, 1]]])),
        3: dict(discrete_generators=np.array([[[0., 1, 0], [0, 0, 1], [-1, 0, 0]]])), 4: dict(lie_algebra=np.array([[[0., 1], [0, 0]]])),
        5: dict(lie_algebra=np.array([[[0., 1, 0], [0, 0, 0], [0, -2, 0]]])),
        6: dict(discrete_generators=np.array([[[0., 0, 1], [1, 0, 0], [0, 1, 0]]])), 7: dict(discrete_generators=np.eye(2)[None]),
        8: dict(discrete_generators=np.array([[[1., 2], [0, 1]]])), 9: dict(lie_algebra=np.array([[[0., 2], [-2, 0]]]))}


def user(k):
    class UserGroup(EG.Group):
        """a group as the documentation tells users to write it"""
        def __init__(self, k):
            for n, v in USER[k].items():
                setattr(self, n, v)
            super().__init__(k)
    return UserGroup(k)


def build(op, gs):
    if op["o"] == "user":
        return user(op["a"])
    if op["o"] == "embed":
        G, lo, st = gs[op["i"] - 1], op["b"], op["st"]
        hi = lo + (int(G.d) - 1) * st + 1
        return EG.Embed(G, op["a"], slice(lo, hi) if st == 1 else slice(lo, hi, st))
    if op["o"] == "prod":
        return gs[op["i"] - 1] * gs[op["j"] - 1]
    cls = getattr(EG, MAKE.get(op["c"], op["c"]))
    return cls() if op["c"] in NOARG else cls(op["a"], op["b"]) if op["c"] == "Zks" else cls(op["a"])


def sp(x, scale):
    """rows of [column, re, im] of a matrix in fixed point"""
    x = np.asarray(x)
    if x.ndim != 2:
        raise Bad("not a matrix")
    re, im = np.array(fixed(x.real, scale)).reshape(x.shape), np.array(fixed(x.imag, scale)).reshape(x.shape)
    return [[[int(j) + 1, int(re[i, j]), int(im[i, j])] for j in np.nonzero((re[i] != 0) | (im[i] != 0))[0]] for i in range(len(x))]


def dense(g):
    return np.asarray(g.to_dense() if isinstance(g, LinearOperator) else g)


def gens(rec, i, G):
    try:
        d = int(G.d)
        rec.ev(e="gens", i=i, ok=1, d=d, lie=[sp(dense(A), S0) for A in G.lie_algebra], disc=[sp(dense(h), S0) for h in G.discrete_generators],
               nc=int(G.num_constraints()), orth=int(bool(G.is_orthogonal)), perm=int(bool(G.is_permutation)))
    except Exception as ex:
        rec.ev(e="gens", i=i, ok=0, err=err(ex))


def scaled(g):
    """one sample at the largest scale whose products stay small; None when the sample is too large to judge"""
    m = float(np.abs(g).max())
    if m > 500:
        return None
    sc = int(min(S0, 6000 // max(m, 1)))
    return dict(sc=sc, m=sp(g, sc))


def samples(rec, i, G, n, rng):
    try:
        np.random.seed(rng.randrange(10 ** 6))
        N = BATCH
        old = G.z_scale
        if G.z_scale is None:
            G.z_scale = rng.choice([.2, .3, .7, None])
        S = np.asarray(G.samples(N))
        one = np.asarray(G.sample()) if n <= 2 else S[-1]
        none = list(np.asarray(G.samples(0)).shape) if n == 1 else [0, int(G.d), int(G.d)]
        G.z_scale = old
        allS = list(S[:[2, 4, 6, 10][n - 1] if G.d < 20 else 3]) + [one]
        rec.ev(e="samples", i=i, ok=1, n=N, k=len(allS), shape=list(S.shape), shape1=list(one.shape), shape0=none, finite=int(np.isfinite(S).all() and np.isfinite(one).all()),
               s=[x for x in map(scaled, allS) if x] if S.ndim == 3 and np.isfinite(S).all() and np.isfinite(one).all() else [])
    except Exception as ex:
        rec.ev(e="samples", i=i, ok=0, err=err(ex))


def dirs(rec, i, G, n, rng):
    old = G.z_scale
    try:
        np.random.seed(rng.randrange(10 ** 6))
        G.z_scale = 1e-3
        S = np.asarray(G.samples(BATCH))
        S = np.concatenate([S, np.asarray(G.samples(BATCH))])
        S = S.astype(np.complex128 if np.iscomplexobj(S) else np.float64)
        G.z_scale = old
        D = S - np.eye(G.d)
        near = D[np.abs(D).reshape(len(D), -1).max(-1) < .05][:60]
        near = near.reshape(len(near), G.d ** 2)
        near = np.concatenate([near.real, near.imag], -1) if np.iscomplexobj(near) else near
        near = near[:, np.abs(near).max(0) > 0] if np.abs(near).max(initial=0) > 0 else near[:, :1]
        rec.ev(e="dirs", i=i, ok=1, near=fixed(near, 3e6))
    except Exception as ex:
        G.z_scale = old
        rec.ev(e="dirs", i=i, ok=0, err=err(ex))


def reach(rec, i, G, n, rng):
    try:
        np.random.seed(rng.randrange(10 ** 6))
        if len(G.lie_algebra) == 0 and G.d <= 12:
            S = np.concatenate([np.asarray(G.samples(BATCH)) for _ in range(5)])
            uniq = {}
            for s in S:
                if np.abs(s).max() < 1.5:
                    uniq.setdefault(json.dumps(np.round(s * 8).astype(int).tolist()), s)
            lst = list(uniq.values())[:40]
            rec.ev(e="reach", i=i, ok=1, s=[dict(sc=100, m=sp(np.round(s, 2), 100)) for s in lst])
        else:
            S = np.asarray(G.samples(BATCH))[:60 if G.d < 6 else 4]
            rec.ev(e="reach", i=i, ok=1, s=[x for x in map(scaled, S) if x])
    except Exception as ex:
        rec.ev(e="reach", i=i, ok=0, err=err(ex))


def run(plan, rec):
    deadline = time.time() + plan.get("budget", 60)
    rng = random.Random(plan["seed"])
    for h in plan["behaviours"]:
        if time.time() > deadline:
            break
        rec.ev(e="reset")
        gs = []
        for op in h["hist"]:
            o = op["o"]
            if o in ("base", "user", "embed", "prod"):
                try:
                    gs.append(build(op, gs))
                    rec.ev(e="op", op=op, ok=1)
                except Exception as ex:
                    rec.ev(e="op", op=op, ok=0, err=err(ex))
                    break
            else:
                G = gs[op["i"] - 1]
                gens(rec, op["i"], G) if o == "gens" else globals()[o](rec, op["i"], G, op["a"], rng)


main(run)
