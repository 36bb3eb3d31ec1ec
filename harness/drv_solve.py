"""Replays histories that also ask for equivariant bases and projectors (C05, C06, C07, C19)."""
import sys
from lib import *
plan = json.load(open(sys.argv[1]))
try:
    import jax, jax.numpy as jnp
    import emlp.reps.representation as ER
    from repmach import Machine, elem, dense
    import groupcat
except Exception as ex:
    main(lambda plan, rec: (_ for _ in ()).throw(ex))
    sys.exit(0)

QS = 10000


def enc(x):
    """columns of a real or complex matrix in fixed point"""
    x = np.asarray(x)
    if np.iscomplexobj(x) and np.abs(x.imag).max(initial=0) > 0:
        re, im = fixed(x.real, QS), fixed(x.imag, QS)
        n, m = x.shape
        return 1, [[[re[i][j], im[i][j]] for i in range(n)] for j in range(m)]
    re = fixed(x.real, QS)
    return 0, [[re[i][j] for i in range(x.shape[0])] for j in range(x.shape[1])]


def group(name):
    global G
    if name and name not in G:
        G[name] = groupcat.MAKE[name]()
    return G.get(name)


G = {}


class Behaviour(Machine):
    def __init__(self, rec, rng, hist):
        super().__init__(rec, rng, G, lambda n: groupcat.MAKE[n]())
        self.first = {}
        names = sorted({o["g"] for o in hist if o["g"]})
        for n in names:
            group(n)
        if any(o["o"] in ("look", "look2") for o in hist):
            for _ in range(2):
                self.add_elem({n: elem(rng, G[n].d, n in groupcat.ORTH, n in groupcat.PERM) for n in names})
        for op in hist:
            if time.time() > deadline:
                break
            o, a = op["o"], op["a"]
            if o in ("basis", "proj", "look", "look2", "kry", "kry2"):
                getattr(self, o)(a)
            elif not self.do(op):
                break

    def text(self, x):
        return (str(x), repr(x), int(x.size()), hash(x))

    def do(self, op):
        if not super().do(op):
            return False
        x = self.regs[-1]
        self.first[len(self.regs)] = self.text(x) if x.concrete else None
        return True

    def basis(self, r):
        x = self.regs[r - 1]
        try:
            Q = x.equivariant_basis()
            if self.rng.random() < .2:
                Q = x.equivariant_basis()   # answered from the cache
            self.answer(r, dense(Q), 1, 0)
        except Exception as ex:
            self.rec.ev(e="basis", r=r, ok=0, err=err(ex), noconv=0)

    def answer(self, r, Q, loose, cap):
        if Q.ndim != 2:
            raise Bad("not a matrix")
        cx, q = enc(Q)
        self.rec.ev(e="basis", r=r, ok=1, n=int(Q.shape[0]), cx=cx, q=q, loose=loose, cap=cap)

    def kry(self, r):
        """the iterative solver; it may give up loudly, but not every time"""
        x = self.regs[r - 1]
        C = x.constraint_matrix()
        fine = self.gof[r - 1] & {"C60", "C420", "D60"}   # it may always give up there
        for attempt in range(4):
            np.random.seed(self.rng.randrange(10 ** 6))
            try:
                if self.rng.random() < .3:
                    cap = self.rng.randint(1, 12)
                    kw = self.rng.choice([dict(), dict(lr=3e-2), dict(lr=2.), dict(lr=30.)])
                    Q = ER.krylov_constraint_solve_upto_r(C, cap, **kw)
                else:
                    cap = 0
                    Q = ER.krylov_constraint_solve(C)
                return self.answer(r, dense(Q), 2, cap)
            except Exception as ex:
                gave_up = isinstance(ex, ER.ConvergenceError) or "gap too small" in str(ex)
                if not gave_up or attempt == 3 or fine:
                    return self.rec.ev(e="basis", r=r, ok=0, err=err(ex), noconv=int(gave_up))

    kry2 = kry

    def proj(self, r):
        x = self.regs[r - 1]
        try:
            n = int(x.size())
            P = x.equivariant_projector()
            v = self.nrng.randint(-3, 4, size=(n,))
            W = np.stack([v, self.nrng.randint(-3, 4, size=(n,))], -1)
            D = np.asarray(P @ jnp.eye(n)) if self.rng.random() < .3 else dense(P)
            pv = np.asarray(P @ v.astype(np.float32)).reshape(-1)
            pm = np.asarray(P @ W.astype(np.float32))[:, 0]
            cx, p = enc(D)
            if cx:
                both = [[[a, b] for a, b in zip(fixed(y.real, QS), fixed(y.imag, QS))] for y in (pv, pm)]
            else:
                both = [fixed(y.real, QS) for y in (pv, pm)]
            self.rec.ev(e="proj", r=r, ok=1, n=int(D.shape[0]), cx=cx, p=p, v=[int(z) for z in v], pv=both[0], pm=both[1])
        except Exception as ex:
            self.rec.ev(e="proj", r=r, ok=0, err=err(ex))

    def look(self, r):
        x = self.regs[r - 1]
        if not x.concrete:
            return
        self.rec.ev(e="again", r=r, same=int(self.text(x) == self.first[r]))
        self.action(r, x, "rho", self.rng.randrange(2))

    look2 = look


def run(plan, rec):
    global deadline
    deadline = time.time() + plan.get("budget", 60)
    rng = random.Random(plan["seed"])
    for h in plan["behaviours"]:
        if time.time() > deadline:
            break
        Behaviour(rec, rng, h["hist"])


main(run)
