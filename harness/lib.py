"""Helpers of the conformance drivers: encoding of observations, atoms, group elements."""
import os, sys, json, time, math, random, logging, warnings
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
import numpy as np

P = 45361


def _iota():
    for g in range(2, 100):
        if all(pow(g, (P - 1) // q, P) != 1 for q in (2, 3, 5, 7)):
            return pow(g, (P - 1) // 4, P)


IOTA = _iota()


class Rec:
    """Writes one JSON line per event."""
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def ev(self, **kw):
        self.f.write(json.dumps(kw) + "\n")
        self.f.flush()
        self.n += 1

    def close(self):
        self.f.close()


def err(e):
    return (type(e).__name__ + ": " + str(e)).replace('"', "'").replace("\n", " ")[:160]


class Bad(Exception):
    """the observation is not what it is documented to be (non finite, not integral, wrong shape)"""


def gauss(x, tol=0.03):
    """Exact Gaussian integer entries -> residues mod P. Raises Bad when not (nearly) integral."""
    x = np.asarray(x)
    if x.dtype == object:
        raise Bad("object array")
    if not np.isfinite(x).all():
        raise Bad("non finite")
    re = np.real(x).astype(np.float64)
    im = np.imag(x).astype(np.float64)
    r, i = np.round(re), np.round(im)
    if x.size and (max(np.abs(re - r).max(), np.abs(im - i).max()) > tol):
        raise Bad("non integral")
    if x.size and max(np.abs(r).max(), np.abs(i).max()) > 2 ** 22:
        raise Bad("too large")
    return ((r.astype(np.int64) + IOTA * i.astype(np.int64)) % P)


def sparse(x):
    """dense 2d array of residues -> rows of [column, value], columns from 1"""
    x = np.asarray(x)
    return [[[int(j) + 1, int(x[i, j])] for j in np.nonzero(x[i])[0]] for i in range(x.shape[0])]


def gmat(x, tol=0.03):
    x = np.asarray(x)
    if x.ndim != 2:
        raise Bad("not a matrix")
    return sparse(gauss(x, tol))


def gvec(x, tol=0.03):
    return [int(v) for v in gauss(np.asarray(x), tol).reshape(-1)]


def fixed(x, scale):
    """fixed point encoding of a real array, nested lists of ints; Bad when non finite or too large"""
    x = np.asarray(x)
    if x.dtype == object:
        raise Bad("object array")
    x = x.astype(np.float64)
    if not np.isfinite(x).all():
        raise Bad("non finite")
    y = np.round(x * scale)
    if y.size and np.abs(y).max() > 2 ** 30:
        raise Bad("too large")
    return y.astype(np.int64).tolist()


def elementary(rng, d, k):
    """random integer matrix of determinant 1 with its inverse, small entries"""
    while True:
        m = np.eye(d, dtype=int)
        w = np.eye(d, dtype=int)
        for _ in range(k):
            i, j = rng.sample(range(d), 2)
            c = rng.choice([-1, 1])
            e = np.eye(d, dtype=int)
            e[i, j] = c
            ei = np.eye(d, dtype=int)
            ei[i, j] = -c
            m = m @ e
            w = ei @ w
        if np.abs(m).max() <= 3 and np.abs(w).max() <= 3 and (d == 1 or np.abs(m - np.eye(d)).sum() > 1):
            return m, w


def signed_perm(rng, d, signs=True, det=None):
    while True:
        p = list(range(d))
        rng.shuffle(p)
        m = np.zeros((d, d), dtype=int)
        for i in range(d):
            m[i, p[i]] = rng.choice([-1, 1]) if signs else 1
        if det is None or round(np.linalg.det(m)) == det:
            return m


def main(fn):
    """Runs fn(plan, rec). An exception that escapes is recorded as an event of its own."""
    plan = json.load(open(sys.argv[1]))
    rec = Rec(sys.argv[2])
    try:
        fn(plan, rec)
    except Exception as ex:
        import traceback
        traceback.print_exc()
        rec.ev(e="crash", err=err(ex), where=traceback.format_exc().replace('"', "'")[-600:])
    rec.close()
