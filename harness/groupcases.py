"""Pairs of group objects built by constructors and arguments, compared and hashed."""
import random
import emlp.groups as EG
from lib import err

CASES = [("SO", (2,)), ("SO", (3,)), ("SO", (4,)), ("O", (2,)), ("O", (3,)), ("S", (2,)), ("S", (3,)), ("S", (4,)), ("Z", (2,)),
         ("Z", (3,)), ("Z", (4,)), ("D", (3,)), ("D", (4,)), ("C", (3,)), ("C", (4,)), ("Trivial", (2,)), ("Trivial", (3,)),
         ("SL", (2,)), ("SL", (3,)), ("GL", (2,)), ("GL", (3,)), ("U", (2,)), ("U", (3,)), ("SU", (2,)), ("SU", (3,)),
         ("Sp", (1,)), ("Sp", (2,)), ("SO13", ()), ("SO13p", ()), ("SO11p", ()), ("O13", ()), ("Lorentz", ()), ("Cube", ()),
         ("RubiksCube", ()), ("ZksZnxZn", (2, 3)), ("ZksZnxZn", (4, 3)), ("ZksZnxZn", (2, 2)), ("Scaling", (2,)), ("Scaling", (3,)),
         ("Parity", ()), ("TimeReversal", ()), ("O11", ()), ("C", (6,)), ("D", (6,))]
# groups built from groups: the arguments are themselves cases
NEST = [("Embed", (("S", (2,)), 4, slice(0, 2))), ("Embed", (("S", (2,)), 4, slice(2, 4))), ("Embed", (("S", (2,)), 5, slice(0, 2))),
        ("Embed", (("Z", (2,)), 4, slice(0, 2))), ("Embed", (("SO", (2,)), 4, slice(1, 3))), ("Embed", (("SO", (2,)), 4, slice(0, 2))),
        ("DirectProduct", (("S", (2,)), ("S", (3,)))), ("DirectProduct", (("S", (3,)), ("S", (2,)))),
        ("DirectProduct", (("Z", (3,)), ("S", (2,)))), ("DirectProduct", (("Z", (2,)), ("Z", (3,)))),
        ("DirectProduct", (("SO", (2,)), ("SO", (3,)))), ("DirectProduct", (("Z", (2,)), ("Z", (2,))))]


def build(case, rng):
    c, args = case
    vals = [build(a, rng) if isinstance(a, tuple) and a and isinstance(a[0], str) else a for a in args]
    if c == "DirectProduct" and rng.random() < .5:
        return vals[0] * vals[1]
    return getattr(EG, c)(*vals)


def compare_groups(rec, seed):
    rng = random.Random(seed)
    cases = rng.sample(CASES, 12) + rng.sample(NEST, 6)
    cases = cases + rng.sample(cases, 5)   # the same construction a second time
    objs, lst = [], []
    for c in cases:
        objs.append(build(c, rng))
        lst.append(dict(c=c[0], a=repr(c[1])))
    before = [(str(g), repr(g), g.d) for g in objs]

    def q(x, y):
        out = []
        for f in (lambda: x == y, lambda: hash(x) == hash(y)):
            try:
                r = f()
                out.append(int(r) if r is True or r is False else 2)
            except Exception:
                out.append(2)
        return out
    rec.ev(e="groups", list=lst, eq=[[q(x, y) for y in objs] for x in objs],
           same=int(before == [(str(g), repr(g), g.d) for g in objs]))
