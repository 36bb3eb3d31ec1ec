"""Replays RepMachine behaviours on the real representation objects and records what they answer."""
import sys
from lib import *
plan = json.load(open(sys.argv[1]))
try:
    import emlp.groups as EG
    from repmach import Machine, elem
except Exception as ex:
    main(lambda plan, rec: (_ for _ in ()).throw(ex))
    sys.exit(0)

rng = random.Random(plan["seed"])
OBS = plan["obs"]
GROUPS = {"SL2": lambda: EG.SL(2), "GL2": lambda: EG.GL(2), "SL3": lambda: EG.SL(3), "SO11p": lambda: EG.SO11p(),
          "SO2": lambda: EG.SO(2), "O3": lambda: EG.O(3), "S3": lambda: EG.S(3), "Z2": lambda: EG.Z(2),
          "SLxSL": lambda: EG.SL(2) * EG.SL(2), "GLxZ": lambda: EG.GL(2) * EG.Z(2), "SOxO": lambda: EG.SO(2) * EG.O(3)}
PARTS = {"SLxSL": ("SL2", "SL2"), "GLxZ": ("GL2", "Z2"), "SOxO": ("SO2", "O3")}
KIND = {"SO2": (1, 0), "O3": (1, 0), "S3": (1, 1), "Z2": (1, 1)}
G = {}
rec = None
deadline = 0


def element(name):
    if name in PARTS:
        (m1, w1, h1), (m2, w2, h2) = [element(p) for p in PARTS[name]]
        return np.kron(m1, m2), np.kron(w1, w2), np.kron(h1, np.eye(len(h2), dtype=int)) + np.kron(np.eye(len(h1), dtype=int), h2), \
            ((m1, m2), (w1, w2), (h1, h2))
    d = G[name].d
    if name == "SO2":
        m = signed_perm(rng, d, det=1)
        return m, m, elem(rng, d, 1, 0)[2]
    m, w, h = elem(rng, d, *KIND.get(name, (0, 0)))
    if name == "GL2" and rng.random() < .5:
        f = np.array([[0, 1], [1, 0]])
        m, w = m @ f, w @ f
    return m, w, h


class Behaviour(Machine):
    def __init__(self, hist, nel):
        super().__init__(rec, rng, G, lambda n: GROUPS[n]())
        for k in range(nel):
            self.add_elem({n: element(n) for n in G})
        for op in hist:
            if time.time() > deadline:
                break
            if not self.do(op):
                break
            i = len(self.regs)
            self.observe(i, last=False)
        else:
            if self.regs:
                # an old register is looked at again at the end of the history
                self.observe(rng.randrange(len(self.regs)) + 1, last=True)
        if "eq" in OBS:
            self.compare()

    def observe(self, i, last):
        x = self.regs[i - 1]
        if not x.concrete:
            return
        for ob in OBS:
            if ob in ("rho", "drho"):
                k = rng.randrange(len(self.els))
                for obk in ([k] if not last else range(len(self.els))):
                    self.action(i, x, ob, obk)
            elif ob == "canon":
                self.canon(i, x)

    def canon(self, i, x):
        try:
            s0 = (str(x), repr(x), int(x.size()))
            c, perm = x.canonicalize()
            c2, perm2 = c.canonicalize()
            perm = np.asarray(perm)
            idem = int(c2 == c and hash(c2) == hash(c) and (np.asarray(perm2) == np.arange(c.size())).all())
            k = rng.randrange(len(self.els))
            M = self.mats(self.gof[i - 1], k, 0)
            D = c.rho_dense(M)
            same = int(s0 == (str(x), repr(x), int(x.size())))
            rec.ev(e="canon", r=i, id=k + 1, ok=1, perm=[int(p) + 1 for p in perm.reshape(-1)], size=int(c.size()),
                   idem=idem, same=same, mat=gmat(D))
        except Exception as ex:
            rec.ev(e="canon", r=i, id=k + 1 if "k" in locals() else 1, ok=0, err=err(ex))

    def compare(self):
        n = len(self.regs)
        what = plan.get("eqof", "rep")
        objs = []
        for i, x in enumerate(self.regs):
            if what == "canon":
                if not x.concrete:
                    continue
                try:
                    objs.append((i + 1, x.canonicalize()[0]))
                except Exception as ex:
                    rec.ev(e="canon", r=i + 1, id=1, ok=0, err=err(ex))
            else:
                objs.append((i + 1, x))
        before = [(str(x), repr(x), int(x.size()) if x.concrete else 0) for x in self.regs]
        pairs = []
        for i, x in objs:
            for j, y in objs:
                if i <= j:
                    pairs.append([i, j, tv(lambda: x == y), tv(lambda: y == x), tv(lambda: hash(x) == hash(y)),
                                  tv(lambda: not (x != y))])
        after = [(str(x), repr(x), int(x.size()) if x.concrete else 0) for x in self.regs]
        rec.ev(e="ceqs" if what == "canon" else "eqs", pairs=pairs, same=int(before == after))


def tv(f):
    try:
        r = f()
    except Exception:
        return 2
    if r is True or r is False or isinstance(r, (bool, np.bool_)):
        return int(r)
    return 2


def run(plan, r):
    global rec, deadline
    rec = r
    G.update({k: f() for k, f in GROUPS.items()})
    deadline = time.time() + plan.get("budget", 60)
    for h in plan["behaviours"]:
        if time.time() > deadline:
            break
        Behaviour(h["hist"], plan.get("nel", 2))
    if plan.get("groups"):
        import groupcases
        groupcases.compare_groups(rec, plan["seed"])


main(run)
