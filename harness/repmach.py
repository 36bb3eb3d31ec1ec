"""Replays the operations of RepMachine on the real representation objects."""
from lib import *
import jax, jax.numpy as jnp
from emlp.reps import V, Scalar, T
from emlp.reps.linear_operator_base import LinearOperator
from emlp.reps.linear_operators import LazyKron, LazyKronsum
from atoms import CUSTOM


def elem(rng, d, orth, perm):
    """a matrix a group with these properties may contain, its inverse transpose, and an integer matrix of the
    kind its Lie algebra may contain"""
    h = np.array([[rng.randint(-2, 2) for _ in range(d)] for _ in range(d)])
    if orth:
        m = signed_perm(rng, d, signs=not perm)
        return m, m, h - h.T
    if d == 1:
        m = np.array([[-1]])
        return m, m, h
    m, w = elementary(rng, d, rng.randint(2, 4))
    return m, w.T, h


def dense(x):
    return np.asarray(x.to_dense() if isinstance(x, LinearOperator) else x)


class Machine:
    """the registers of one behaviour; G: name -> group object, make: name -> constructor"""
    def __init__(self, rec, rng, G, make):
        self.rec, self.rng, self.G, self.make = rec, rng, G, make
        self.nrng = np.random.RandomState(rng.randrange(2 ** 31))
        self.regs, self.gof, self.els = [], [], []
        rec.ev(e="reset")

    def add_elem(self, el):
        self.els.append(el)
        self.rec.ev(e="elems", id=len(self.els), g={n: dict(m=sparse(m % P), w=sparse(w % P), h=sparse(h % P))
                                                    for n, (m, w, h, *_) in el.items()})

    # -- operations ------------------------------------------------------
    def do(self, op):
        r = self.regs
        o, a, b, n, g, s = op["o"], op["a"], op["b"], op["n"], op["g"], op["s"]
        A = r[a - 1] if o not in ("T", "atom", "scalar") else None
        B = r[b - 1] if o in ("add", "mul", "shr", "shl") else None
        try:
            if o == "atom":
                # groups are built anew now and then: equal groups are interchangeable
                grp = None if g == "" else (self.make(g) if self.rng.random() < .3 else self.G[g])
                x = V if s == "V" else CUSTOM[s](n)
                x = x(grp) if grp is not None else x
            elif o == "scalar":
                x = Scalar
            elif o == "T":
                x = T(a, b, self.G[g])
            elif o == "add":
                x = A + B
            elif o == "addint":
                x = A + n
            elif o == "raddint":
                x = n + A
            elif o == "mul":
                x = A * B
            elif o == "nmul":
                x = n * A
            elif o == "rnmul":
                x = A * n
            elif o == "pow":
                x = A ** n
            elif o == "dual":
                x = A.T
            elif o == "shr":
                x = A >> B
            elif o == "shl":
                x = A << B
            elif o == "inst":
                x = A(self.G[g])
            conc = 1 if x.concrete else 0
            size = int(x.size()) if conc else -1
            txt = str(x) + repr(x)
            self.rec.ev(e="op", op=op, ok=1, conc=conc, size=size, txt=1 if isinstance(txt, str) else 0)
            r.append(x)
            gs = set()
            if o in ("atom", "T"):
                gs = {g}
            elif o == "inst":
                gs = {g} if self.gof[a - 1] else set()
            elif A is not None:
                gs = self.gof[a - 1] | (self.gof[b - 1] if B is not None else set())
            if o == "T" and a + b == 0 or o == "pow" and n == 0:
                gs = set()
            self.gof.append(gs)
            return True
        except Exception as ex:
            self.rec.ev(e="op", op=op, ok=0, err=err(ex), conc=0, size=0, txt=0)
            return False

    # -- observations ----------------------------------------------------
    def mats(self, gs, k, what):
        el = self.els[k]
        dt = self.rng.choice([np.float32, np.float64])
        conv = self.rng.choice([np.asarray, jnp.asarray])


        def value(n):
            # an element of a direct product of groups is a lazy Kronecker product, as the library samples it
            if len(el[n]) > 3 and lazy:
                return (LazyKron if what < 2 else LazyKronsum)([conv(x.astype(dt)) for x in el[n][3][what]])
            return conv(el[n][what].astype(dt))
        lazy = self.rng.random() < .7
        if len(gs) == 1 and self.rng.random() < .7:
            return value(next(iter(gs)))
        return {self.G[n]: value(n) for n in el}

    def action(self, i, x, ob, k):
        what = 0 if ob == "rho" else 2
        try:
            M = self.mats(self.gof[i - 1], k, what)
            n = int(x.size())
            A = x.rho(M) if ob == "rho" else x.drho(M)
            form = self.rng.choice(["dense", "op"])
            D = (x.rho_dense(M) if ob == "rho" else x.drho_dense(M)) if form == "dense" else dense(A)
            v = self.nrng.randint(-3, 4, size=(n,))
            W = self.nrng.randint(-3, 4, size=(n, 2))
            shape = [int(s) for s in A.shape]
            self.rec.ev(e=ob, r=i, id=k + 1, ok=1, size=n, shape=shape, mat=gmat(D), v=gvec(v), av=gvec(A @ v.astype(np.float32)),
                   w1=gvec(W[:, 0]), w2=gvec(W[:, 1]), aw=[gvec(np.asarray(A @ W.astype(np.float32))[:, c]) for c in range(2)])
        except Exception as ex:
            self.rec.ev(e=ob, r=i, id=k + 1, ok=0, err=err(ex))
