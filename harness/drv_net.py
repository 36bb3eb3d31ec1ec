"""Replays NetGen histories: gating, bilinear and linear layers, networks, augmentation, channel allocation."""
import sys
from lib import *
plan = json.load(open(sys.argv[1]))
BACKENDS = ["objax", "flax", "haiku", "pytorch"]
try:
    import jax, jax.numpy as jnp
    from repmach import Machine, elem, dense
    import groupcat
    import emlp.nn as nn
    from emlp.reps import T, Scalar, Rep, bilinear_weights
    from emlp.reps.product_sum_reps import SumRep
    need = set(plan.get("backends", range(4)))
    import objax
    if 1 in need:
        import flax
        import emlp.nn.flax as fl
    if 2 in need:
        import haiku as hk
        import emlp.nn.haiku as hl
    if 3 in need:
        import torch
        torch.set_num_threads(1)
        import emlp.nn.pytorch as tl
except Exception as ex:
    main(lambda plan, rec: (_ for _ in ()).throw(ex))
    sys.exit(0)

WS, QS = 1000, 10000
G = {}


def group(name):
    if name not in G:
        G[name] = groupcat.MAKE[name]()
    return G[name]


def num(x):
    return np.asarray(x.detach().numpy() if not isinstance(x, (np.ndarray, jnp.ndarray)) and hasattr(x, "detach") else x)


def real(x):
    x = num(x)
    if np.iscomplexobj(x):
        if np.abs(x.imag).max(initial=0) > 1e-4:
            raise Bad("complex")
        x = x.real
    return x


class Net:
    """a layer or network of one of the backends, with parameters that can be read and set as a flat list"""
    def __init__(self, bk, make, nin, train=False):
        """make(module of the backend) builds it"""
        self.bk = BACKENDS[bk]
        x0 = np.zeros((2, nin), np.float32)
        key = jax.random.PRNGKey(rng.randrange(2 ** 31))
        if self.bk == "objax":
            objax.random.DEFAULT_GENERATOR.seed(rng.randrange(2 ** 31))
            self.f = make(nn)
            self.vars = list(self.f.vars().subset(objax.TrainVar).values()) if hasattr(self.f, "vars") else []
        elif self.bk == "flax":
            self.f = make(fl)
            self.p = self.f.init(key, jnp.asarray(x0))
        elif self.bk == "haiku":
            lay = make(hl)
            self.f = hk.without_apply_rng(hk.transform(lambda x: lay(x)))
            self.p = self.f.init(key, jnp.asarray(x0))
        else:
            torch.manual_seed(rng.randrange(2 ** 31))
            self.f = make(tl)

    def get(self):
        if self.bk == "objax":
            return [np.array(v.value) for v in self.vars]
        if self.bk == "pytorch":
            return [p.detach().numpy().copy() for p in self.f.parameters()]
        return [np.array(p) for p in jax.tree_util.tree_leaves(self.p)]

    def set(self, ps):
        ps = [np.asarray(p, np.float32) for p in ps]
        if self.bk == "objax":
            for v, p in zip(self.vars, ps):
                v.assign(jnp.asarray(p))
        elif self.bk == "pytorch":
            with torch.no_grad():
                for v, p in zip(self.f.parameters(), ps):
                    v.copy_(torch.from_numpy(p))
        else:
            self.p = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(self.p), [jnp.asarray(p) for p in ps])

    def fn(self):
        """the function of the input, in jax (not for pytorch)"""
        if self.bk == "objax":
            return lambda x: self.f(x)
        p = self.p
        return lambda x: self.f.apply(p, x)

    def __call__(self, x, jit=False):
        x = np.asarray(x, np.float32)
        if self.bk == "pytorch":
            return real(self.f(torch.from_numpy(x)))
        f = self.fn()
        return real((jax.jit(f) if jit else f)(jnp.asarray(x)))

    def tangent(self, x, tx):
        """derivative at each row of x in the direction of the row of tx"""
        x, tx = np.asarray(x, np.float32), np.asarray(tx, np.float32)
        if not len(x):
            return np.zeros((0, 0))
        if self.bk == "pytorch":
            z = torch.from_numpy(x).requires_grad_(True)
            y = self.f(z)
            out = []
            for k in range(y.shape[1]):
                g, = torch.autograd.grad(y[:, k].sum(), z, retain_graph=True)
                out.append((g.numpy() * tx).sum(1))
            return np.stack(out, 1) if out else np.zeros(y.shape)
        return real(jax.jvp(self.fn(), (jnp.asarray(x),), (jnp.asarray(tx),))[1])

    def train(self, xs, ys, steps, lr=1e-2):
        if self.bk == "objax":
            loss = objax.Jit(lambda x, y: ((self.f(x) - y) ** 2).mean(), self.f.vars()) if rng.random() < .5 else lambda x, y: ((self.f(x) - y) ** 2).mean()
            gv = objax.GradValues(loss, self.f.vars())
            opt = objax.optimizer.Adam(self.f.vars()) if rng.random() < .5 else objax.optimizer.SGD(self.f.vars())
            for _ in range(steps):
                g, v = gv(jnp.asarray(xs), jnp.asarray(ys))
                opt(lr, g)
        elif self.bk == "pytorch":
            opt = torch.optim.Adam(self.f.parameters(), lr=lr)
            for _ in range(steps):
                opt.zero_grad()
                ((self.f(torch.from_numpy(xs)) - torch.from_numpy(ys)) ** 2).mean().backward()
                opt.step()
        else:
            grad = jax.grad(lambda p: ((self.f.apply(p, jnp.asarray(xs)) - ys) ** 2).mean())
            for _ in range(steps):
                g = grad(self.p)
                self.p = jax.tree_util.tree_map(lambda a, b: a - lr * b, self.p, g)


def randint(*shape, k=2):
    return nrng.randint(-k, k + 1, size=shape)


class Behaviour(Machine):
    def __init__(self, rec, rng, hist):
        super().__init__(rec, rng, G, lambda n: groupcat.MAKE[n]())
        names = sorted({o["g"] for o in hist if o["g"]})
        for n in names:
            group(n)
        if any(o["o"] in ("bil", "gated") for o in hist):
            for _ in range(2):
                self.add_elem({n: elem(rng, G[n].d, n in groupcat.ORTH, n in groupcat.PERM) for n in names})
        for op in hist:
            if time.time() > deadline:
                break
            o = op["o"]
            if o in ("lin", "bil", "gate", "gate2", "net", "aug", "alloc"):
                getattr(self, o)(op)
            elif not self.do(op):
                break

    def do(self, op):
        if op["o"] != "gated":
            return super().do(op)
        try:
            x = nn.gated(self.regs[op["a"] - 1])
            self.rec.ev(e="op", op=op, ok=1, conc=1 if x.concrete else 0, size=int(x.size()), txt=1 if isinstance(str(x), str) else 0)
            self.regs.append(x)
            self.gof.append(self.gof[op["a"] - 1])
            self.action(len(self.regs), x, "rho", self.rng.randrange(2))
            return True
        except Exception as ex:
            self.rec.ev(e="op", op=op, ok=0, err=err(ex), conc=0, size=0, txt=0)
            return False

    # -- C11
    def alloc(self, op):
        g, ch = group(op["g"]), op["n"]
        try:
            np.random.seed(self.rng.randrange(2 ** 31))
            rep = nn.uniform_rep(ch, g)
            parts = list(rep) if isinstance(rep, SumRep) else [rep]
            size = int(rep.size())
            known, counts, other = alloc_types.setdefault(op["g"], {}), {}, 0
            for x in parts:
                k = known.get(x) or classify(x, g, ch, op["g"] in groupcat.ORTH)
                if k is None:
                    other += 1
                    continue
                known[x] = k
                counts[k] = counts.get(k, 0) + 1
            c, perm = rep.canonicalize()
            canon = int(c == rep and hash(c) == hash(rep) and list(perm) == list(range(size)))
            self.rec.ev(e="alloc", ok=1, g=op["g"], ch=ch, size=size, conc=int(bool(rep.concrete)), canon=canon, other=other,
                        reps=[[p, q, n] for (p, q), n in sorted(counts.items())])
        except Exception as ex:
            self.rec.ev(e="alloc", ok=0, g=op["g"], ch=ch, err=err(ex))

    # -- C12
    def gate(self, op):
        bk, a = op["n"], op["a"]
        x = self.regs[a - 1]
        try:
            n = int(x.size())
            g = nn.gated(x)
            size = int(g.size())
            ng = size - n
            rows = 4
            # rows of values; no two gates have the same column
            cols = set()
            while len(cols) < ng:
                cols.add(tuple(self.rng.randint(-6, 6) for _ in range(rows)))
            cols = list(cols)
            self.rng.shuffle(cols)
            val = np.array([[self.rng.choice([-6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6]) for _ in range(n)] + [c[r] for c in cols] for r in range(rows)])
            inp = val.astype(np.float32)
            mod = [nn, globals().get("fl"), globals().get("hl"), globals().get("tl")][bk]
            layer = mod.GatedNonlinearity(x)

            def f(v):
                if bk == 3:
                    return num(layer(torch.from_numpy(v)))
                if bk == 1:
                    return num(layer.apply({}, jnp.asarray(v)))
                fun = jax.jit(lambda u: layer(u)) if self.rng.random() < .2 else layer
                return num(fun(jnp.asarray(v)))
            shape = self.rng.choice(["single", "batch", "batch", "two"])
            out = np.stack([f(v) for v in inp]) if shape == "single" else f(inp) if shape == "batch" else f(inp.reshape(2, 2, -1)).reshape(rows, -1)
            self.rec.ev(e="gate", ok=1, a=a, bk=BACKENDS[bk], size=size, val=val.tolist(), out=fixed(out, QS), form=shape)
        except Exception as ex:
            self.rec.ev(e="gate", ok=0, a=a, bk=BACKENDS[bk], err=err(ex))

    gate2 = gate

    # -- C13
    def rho(self, r, k):
        """the integer matrix of element k, through the library (checked by the specification)"""
        x = self.regs[r - 1]
        return np.round(dense(x.rho({self.G[n]: jnp.asarray(v[0].astype(np.float32)) for n, v in self.els[k].items()}))).astype(int)

    def bil(self, op):
        a, b, bk = op["a"], op["b"], op["n"]
        x, y = self.regs[a - 1], self.regs[b - 1]
        k = self.rng.randrange(2)
        try:
            np.random.seed(self.rng.randrange(2 ** 31))
            dim, fn = bilinear_weights(y, x)
            n = int(x.size())
            w1, w2, x1, x2 = randint(dim), randint(dim), randint(n), randint(n)
            gx = self.rho(a, k) @ x1
            wr = self.rng.random() < .3

            def W(w, v):
                return np.asarray(fn(jnp.asarray(w, jnp.float32), jnp.asarray(v, jnp.float32)))
            allW = [W(w1, x1), W(w2, x1), W(w1, x2), W(w1 + 2 * w2, x1), W(w1, x1 - 3 * x2), W(w1, gx)]
            B = W(w1, np.stack([x1, x2, gx, x1 - 3 * x2]))
            B2 = W(w1, np.stack([x1, x2, gx, x1 - 3 * x2]).reshape(2, 2, n))
            ok = all(np.allclose(p, q, atol=1e-3) for p, q in zip(B, [allW[0], allW[2], allW[5], allW[4]])) and np.allclose(B.reshape(B2.shape), B2) \
                and B.shape == (4,) + allW[0].shape
            xs = np.where(randint(n) > 0, 1, 2) + 10 * np.arange(n)
            eff = sum(bool(np.abs(W(e, xs)).max(initial=0) > 0) for e in np.eye(dim)) if dim <= 40 else dim
            m = [gauss(z).tolist() for z in allW]
            self.rec.ev(e="bil", ok=1, a=a, b=b, id=k + 1, wdim=int(dim), eff=int(eff), W11=m[0], W21=m[1], W12=m[2], Wc1=m[3], W1c=m[4], Wg=m[5],
                        x=gvec(x1), gx=gvec(gx), batch=int(ok))
        except Exception as ex:
            self.rec.ev(e="bil", ok=0, a=a, b=b, err=err(ex))
        try:
            net = Net(bk, lambda m: m.BiLinear(x, y), n)
            ps = net.get()
            assert len(ps) == 1
            d = len(ps[0])
            w1, w2 = randint(d), randint(d)
            gx = self.rho(a, k) @ x1

            def f(w, v):
                net.set([w])
                return net(v) * 10
            ys = [f(w1, x1), f(w1, x2), f(w1, x1 + x2), f(w1, x1 - x2), f(w1, gx), f(w2, x1), f(w1 + 2 * w2, x1)]
            B = f(w1, np.stack([x1, x2, gx]))
            ok = np.allclose(B, np.stack([ys[0], ys[1], ys[4]]), atol=1e-3 * max(1, np.abs(B).max(initial=0)))
            m = [gvec(z) for z in ys]
            self.rec.ev(e="billayer", ok=1, a=a, b=b, id=k + 1, bk=BACKENDS[bk], nparam=d, y1=m[0], y2=m[1], yp=m[2], ym=m[3], yg=m[4], w2y=m[5], wcy=m[6],
                        x=gvec(x1), gx=gvec(gx), batch=int(ok))
        except Exception as ex:
            self.rec.ev(e="billayer", ok=0, a=a, b=b, bk=BACKENDS[bk], err=err(ex))

    # -- C14
    def lin(self, op):
        a, b, bk = op["a"], op["b"], op["n"]
        x, y = self.regs[a - 1], self.regs[b - 1]
        try:
            n, m = int(x.size()), int(y.size())
            net = Net(bk, lambda mod: mod.Linear(x, y), n)
            ps = net.get()
            assert sorted(p.ndim for p in ps) == [1, 2]
            w, b0 = randint(m, n), randint(m)
            if self.rng.random() < .2:
                w = np.zeros((m, n), int)
                w[self.rng.randrange(m), self.rng.randrange(n)] = 2
            if self.rng.random() < .15:     # the raw initial parameters, on the grid of the specification
                w = np.clip(np.round(ps[[p.ndim for p in ps].index(2)] * 2), -2, 2).astype(int)
            net.set([w if p.ndim == 2 else b0 for p in ps])
            jit = self.rng.random() < .15
            B = net(np.zeros(n), jit)
            W = (net(np.eye(n), jit) - B).T
            X = randint(3, n)
            form = self.rng.randrange(3)
            Y = net(X, jit) if form == 0 else np.stack([net(v, jit) for v in X]) if form == 1 else net(X.reshape(3, 1, n), jit).reshape(3, m)
            Q = dense((y * x.T).equivariant_basis()) if self.rng.random() < .5 else dense((x >> y).equivariant_basis())
            Qb = dense(y.equivariant_basis())
            self.rec.ev(e="lin", ok=1, a=a, b=b, bk=BACKENDS[bk], w=w.reshape(-1).tolist(), b0=b0.tolist(), W=fixed(W.reshape(-1), WS), B=fixed(B, WS), X=X.tolist(), Y=fixed(Y, WS),
                        Q=fixed(real(Q).T, QS), Qb=fixed(real(Qb).T, QS))
        except Exception as ex:
            self.rec.ev(e="lin", ok=0, a=a, b=b, bk=BACKENDS[bk], err=err(ex))

    # -- C15
    def net(self, op):
        rin, rout, g, bk = self.regs[op["a"] - 1], self.regs[op["b"] - 1], group(op["g"]), op["n"]
        var = op["s"]
        if var in ("ode", "H"):
            bk = 0
        if var == "std" and bk not in (0, 3):
            var = "plain"
        hid = [h["val"] if h["kind"] == 1 else self.regs[h["val"] - 1] for h in op["hid"]]
        kw = dict(ch=hid if op["list"] else hid[0])
        if not op["list"] or self.rng.random() < .3:
            kw["num_layers"] = op["L"]
        small = {k: op[k] for k in ("a", "b", "n", "g", "s", "L", "list", "hid")}
        small["pts"] = [dict(im=dict(l=[dict(i=l["i"]) for l in p["im"]["l"]])) for p in op["pts"]]
        phase = "build"
        try:
            np.random.seed(self.rng.randrange(2 ** 31))
            n = len(op["pts"][0]["x"])
            cls = dict(ode="EMLPode", H="EMLPH").get(var, "EMLP")
            inner = {}

            def make(mod):
                f = getattr(mod, cls)(rin, rout, g, **kw)
                inner["model"] = f
                if cls == "EMLPode":
                    inner["ode"] = f
                    return Wrap(f, lambda z: f(z, 0.))
                if cls == "EMLPH":
                    return Wrap(f, lambda z: f.network(z))
                return f
            net = Net(bk, make, n)
            sizes = []
            if bk in (0, 3):
                blocks = [l for l in inner["model"].network]
                sizes = [int(l.nonlinearity.rep.size()) for l in blocks[:-1]]
            for phase in ["init", "set", "train"][:1 + (self.rng.random() < .7) + (self.rng.random() < .5)]:
                if time.time() > deadline:
                    return
                if phase == "set":
                    net.set([nrng.randn(*p.shape) for p in net.get()])
                if phase == "train":
                    m = net(np.zeros((1, n))).shape[1]
                    net.train(nrng.randn(4, n).astype(np.float32), nrng.randn(4, m).astype(np.float32), self.rng.randint(1, 3))
                self.netev(small, op, net, var, inner, sizes, phase)
        except Exception as ex:
            self.rec.ev(e="net", ok=0, op=small, bk=BACKENDS[bk], phase=phase, err=err(ex))

    def netev(self, small, op, net, var, inner, sizes, phase):
        jit = self.rng.random() < .2
        rows, back = [], []
        for p, pt in enumerate(op["pts"]):
            rows.append(pt["x"])
            back.append((p, "y"))
            for v in pt["im"]["d"]:
                rows.append(v)
                back.append((p, "d"))
        X = np.array(rows) / 1000.
        Y = net(X, jit)
        if Y.ndim != 2:
            raise Bad("rank of the output")
        tx = [(p, pt["x"], l["v"]) for p, pt in enumerate(op["pts"]) for l in pt["im"]["l"]]
        TY = net.tangent(np.array([t[1] for t in tx]) / 1000., np.array([t[2] for t in tx]) / 1000.) if tx else np.zeros((0, Y.shape[1]))
        s = max(np.abs(Y).max(initial=0), np.abs(TY).max(initial=0))
        if not np.isfinite(s):
            raise Bad("not finite")
        s = max(s, 1e-3 if phase == "init" else 1e-2)      # values below that are rounding errors
        out = [dict(y=None, d=[], l=[]) for _ in op["pts"]]
        for (p, k), y in zip(back, Y / s):
            if k == "y":
                out[p]["y"] = fixed(y, QS)
            else:
                out[p]["d"].append(fixed(y, QS))
        for (p, _, _), y in zip(tx, TY / s):
            out[p]["l"].append(fixed(y, QS))
        y1 = [fixed(net(np.array(pt["x"]) / 1000.) / s, QS) for pt in op["pts"]]
        aux = want = []
        X0 = np.array([pt["x"] for pt in op["pts"]]) / 1000.
        Y0 = np.stack([Y[k] for k, b in enumerate(back) if b[1] == "y"])
        model = inner["model"]
        if var == "H":
            hs = [float(model.H(jnp.asarray(x, jnp.float32))) for x in X0] + [float(model(jnp.asarray(X0, jnp.float32)))]
            aux = fixed(np.array(hs) / s / Y0.size, QS)
            want = fixed(np.array([y.sum() for y in Y0] + [Y0.sum()]) / s / Y0.size, QS)
        if var == "std":
            mu, sig, mo, so = nrng.randint(-2, 3, size=X0.shape[1]) * .5, .5 + self.rng.randrange(3), self.rng.randint(-2, 2), .5 * self.rng.randint(1, 4)
            stats = (mu.astype(np.float32), np.float32(sig)) + ((np.float32(mo), np.float32(so)) if self.rng.random() < .5 else ())
            z = (X0 * sig + mu).astype(np.float32)
            if net.bk == "pytorch":
                y = num(tl.Standardize(model, stats)(torch.from_numpy(z)))
            else:
                y = num(nn.Standardize(model, stats)(jnp.asarray(z), training=bool(self.rng.randrange(2))))
            w = Y0 if len(stats) == 2 else so * Y0 + mo
            t = max(np.abs(w).max(initial=0), np.abs(y).max(initial=0), 1e-2)
            aux, want = fixed((y / t).reshape(-1), QS), fixed((w / t).reshape(-1), QS)
        self.rec.ev(e="net", ok=1, op=small, bk=net.bk, var=var, phase=phase, y=out, y1=y1, hid=sizes, aux=aux, want=want)

    # -- C18
    def aug(self, op):
        from emlp.datasets import GroupAugmentation
        a, b, N = op["a"], op["b"], op["n"]
        rin, rout, name = self.regs[a - 1], self.regs[b - 1], op["g"]
        try:
            g = groupcat.MAKE[name]()
            n, m = int(rin(g).size()), int(rout(g).size())
            A, C = randint(m, n, k=1), [[self.rng.choice([0, 1, -1, 2]), self.rng.randint(1, n), self.rng.randint(1, n)] for _ in range(m)]
            many, ones, flags = [], [], []

            def stand_in(k, given):
                res = []
                for _ in range(k):
                    e = elem(self.rng, g.d, name in groupcat.ORTH, name in groupcat.PERM)
                    given.append(e)
                    res.append(e[0])
                return jnp.asarray(np.stack(res).astype(np.float32))
            g.samples = lambda N: stand_in(N, many)
            g.sample = lambda: stand_in(1, ones)[0]     # also used to find the size of custom representations

            class Model(objax.Module):
                def __call__(self, z, training=True):
                    flags.append(int(bool(training)))
                    return z @ A.T.astype(np.float32) + jnp.stack([c * z[..., i - 1] * z[..., j - 1] for c, i, j in C], -1)
            au = GroupAugmentation(Model(), rin, rout, g)
            X = randint(N, n, k=1)
            Y = au(jnp.asarray(X.astype(np.float32))) if self.rng.random() < .5 else au(jnp.asarray(X.astype(np.float32)), training=True)
            given = many if many else ones[-N:]
            els = [dict(m=sparse(e[0] % P), w=sparse(e[1] % P), h=sparse(e[2] % P)) for e in given]
            k = len(given)
            many.clear()
            ones.clear()
            Z = au(jnp.asarray(X.astype(np.float32)), training=False)
            self.rec.ev(e="aug", ok=1, a=a, b=b, g=name, X=X.tolist(), A=A.tolist(), C=C, els=els, nels=k, eval=len(many) + len(ones),
                        Y=[gvec(y, .2) for y in np.asarray(Y)], Z=[gvec(y) for y in np.asarray(Z)], flags=flags)
        except Exception as ex:
            self.rec.ev(e="aug", ok=0, a=a, b=b, g=name, err=err(ex))
        if op["s"] == "eq" and self.rng.random() < .5:
            try:
                g = group(name)
                x, y = rin(g), rout(g)
                lin = nn.Linear(x, y)

                class Lin(objax.Module):
                    def __call__(self, z, training=True):
                        return lin(z)
                au = GroupAugmentation(Lin(), rin, rout, g)
                X = jnp.asarray(randint(3, n, k=2).astype(np.float32))
                Y, Z = np.asarray(au(X, True)), np.asarray(au(X, False))
                s = max(np.abs(Z).max(initial=0), 1.)
                self.rec.ev(e="augeq", ok=1, g=name, Y=fixed(real(Y) / s, QS), Z=fixed(real(Z) / s, QS))
            except Exception as ex:
                self.rec.ev(e="augeq", ok=0, g=name, err=err(ex))


class Wrap(objax.Module):
    def __init__(self, f, call):
        self.f, self._call = f, [call]

    def __call__(self, x):
        return self._call[0](x)


alloc_types = {}


def classify(x, g, ch, orth):
    for r in range(0, ch + 1):
        if g.d ** r > ch:
            break
        for p in ([r] if orth else range(r + 1)):
            if T(p, r - p, g) == x:
                return (p, r - p)


def run(plan, rec):
    global deadline, rng, nrng
    deadline = time.time() + plan.get("budget", 60)
    rng = random.Random(plan["seed"])
    nrng = np.random.RandomState(plan["seed"] % 2 ** 31)
    for h in plan["behaviours"]:
        if time.time() > deadline:
            break
        Behaviour(rec, rng, h["hist"])


main(run)
