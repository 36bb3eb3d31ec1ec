"""Replays OpMachine histories on the library's linear operators and records what they compute."""
import sys
from lib import *
plan = json.load(open(sys.argv[1]))
try:
    import jax
    import jax.numpy as jnp
    from emlp.reps import linear_operators as L
    from emlp.reps.linear_operator_base import LinearOperator, Lazy
except Exception as ex:
    main(lambda plan, rec: (_ for _ in ()).throw(ex))
    sys.exit(0)

rng = random.Random(plan["seed"])


def arr(m, jx):
    a = np.array([[complex(re, im) for re, im in r] for r in m])
    a = a.astype(np.complex64) if (a.imag != 0).any() else a.real.astype(np.float32)
    return jnp.asarray(a) if jx else a


def enc(x, ndim):
    """exact Gaussian integer entries"""
    x = np.asarray(x)
    if x.dtype == object or x.ndim != ndim or not np.isfinite(x).all():
        raise Bad("not an array of rank %d with finite entries: rank %d" % (ndim, x.ndim))
    r, i = np.round(np.real(x).astype(np.float64)), np.round(np.imag(x).astype(np.float64))
    if x.size and np.abs(x - (r + 1j * i)).max() > .03:
        raise Bad("non integral")
    return np.stack([r, i], -1).astype(np.int64).tolist()


def arg(l, regs):
    return [regs[k - 1] for k in l]


UNI = {1: [[1, 1], [0, 1]], 2: [[2, 1], [1, 1]], 3: [[1j, 1], [0, 1]], 4: [[1, 2, 0], [0, 1, 0], [0, -1, 1]]}


def build(op, regs):
    o = op["o"]
    A = regs[op["i"] - 1] if op["i"] and o != "swap" else None
    B = regs[op["j"] - 1] if op["j"] and o != "swap" else None
    if o == "I":
        return L.I(op["n"])
    if o == "perm":
        return L.LazyPerm(np.array(op["l"]) - 1)
    if o == "shift":
        return L.LazyShift(op["n"], op["k"]) if op["k"] != 1 else L.LazyShift(op["n"])
    if o == "swap":
        return L.SwapMatrix([op["i"] - 1, op["j"] - 1], op["n"])
    if o == "rot":
        return L.Rot90(op["n"], op["k"])
    if o == "lazy":
        return Lazy(arr(op["m"], True))
    if o == "raw":
        return arr(op["m"], rng.random() < .5)
    if o in ("uni", "rawuni"):
        a = np.array(UNI[op["n"]])
        a = a.astype(np.complex64 if np.iscomplexobj(a) else np.float32)
        return Lazy(jnp.asarray(a)) if o == "uni" else a
    if o == "kron":
        return L.LazyKron(arg(op["l"], regs))
    if o == "ksum":
        return L.LazyKronsum(arg(op["l"], regs))
    if o == "dsum":
        return L.LazyDirectSum(arg(op["l"], regs), None if all(k == 1 for k in op["ml"]) and rng.random() < .5 else op["ml"])
    if o == "cat":
        return L.ConcatLazy(arg(op["l"], regs))
    if o == "add":
        return A + (jnp.asarray(B) if isinstance(B, np.ndarray) else B)
    if o == "sub":
        return A - B
    if o == "mul":
        return A @ B if rng.random() < .6 else A * B if rng.random() < .5 else A.dot(B)
    if o == "neg":
        return -A
    if o in ("scale", "rscale"):
        al = complex(*op["al"]) if op["al"][1] else rng.choice([int, float])(op["al"][0])
        return al * A if o == "scale" else A * al
    if o == "pow":
        return A ** op["k"]
    if o == "T":
        return A.T if rng.random() < .5 else A.transpose()
    if o == "H":
        return A.H if rng.random() < .5 else A.adjoint()
    if o == "invT":
        return A.invT()
    raise AssertionError(o)


def vec(n, cx):
    v = np.array([complex(rng.randint(-3, 3), rng.randint(-3, 3) if cx else 0) for _ in range(n)])
    return v.astype(np.complex64) if cx else v.real.astype(np.float32)


def look(f, x, X, jit):
    try:
        A = f()
        n, m = A.shape
        ap = (lambda v: A @ v) if rng.random() < .5 else rng.choice([lambda v: A * v, lambda v: A(v), lambda v: A.dot(v),
                                                                      lambda v: A.matvec(v) if v.ndim == 1 or v.shape[1] == 1 else A.matmat(v)])
        if jit:
            ap = jax.jit(ap)
        return dict(ok=1, shape=[int(n), int(m)], dense=enc(A.to_dense(), 2), y=enc(ap(jnp.asarray(x[:m])), 1),
                    y1=enc(ap(jnp.asarray(x[:m, None])), 2), Y=enc(ap(jnp.asarray(X[:m])), 2))
    except Exception as ex:
        return dict(ok=0, err=err(ex))


def observe(rec, k, A):
    cx = rng.random() < .4
    n = max(A.shape)
    x = vec(n, cx)
    X = vec(n * rng.choice([1, 2, 3]), cx).reshape(n, -1)
    jit = rng.random() < .1
    vj = dict(ok=2)
    if rng.random() < .3:
        try:
            _, f = jax.vjp(lambda v: A @ v, jnp.zeros(A.shape[1], jnp.complex64))
            vj = dict(ok=1, y=enc(f(jnp.asarray(x[:A.shape[0]].astype(np.complex64)))[0], 1))
        except Exception as ex:
            vj = dict(ok=0, err=err(ex))
    rec.ev(e="obs", i=k, x=enc(x, 1), X=enc(X, 2), a=look(lambda: A, x, X, jit), t=look(lambda: A.T, x, X, jit), h=look(lambda: A.H, x, X, jit),
           th=look(lambda: A.T.H, x, X, False) if rng.random() < .5 else look(lambda: A.H.T, x, X, False), tt=look(lambda: A.T.T, x, X, False) if rng.random() < .5 else look(lambda: A.H.H, x, X, False), vj=vj)


def run(plan, rec):
    deadline = time.time() + plan.get("budget", 60)
    for h in plan["behaviours"]:
        if time.time() > deadline:
            break
        rec.ev(e="reset")
        regs = []
        for op in h["hist"]:
            if time.time() > deadline:
                break
            try:
                regs.append(build(op, regs))
                rec.ev(e="op", op=op, ok=1)
            except Exception as ex:
                rec.ev(e="op", op=op, ok=0, err=err(ex))
                break
            if op["o"] not in ("raw", "rawuni") and (op["o"] not in ("I", "lazy", "perm") or rng.random() < .2):
                if isinstance(regs[-1], LinearOperator):
                    observe(rec, len(regs), regs[-1])
        try:
            rec.ev(e="again", ok=1, d=[enc(A.to_dense() if isinstance(A, LinearOperator) else A, 2) for A in regs])
        except Exception as ex:
            rec.ev(e="again", ok=0, err=err(ex))


main(run)
