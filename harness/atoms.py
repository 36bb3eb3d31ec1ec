"""Custom representations used by the drivers, written the way the documentation shows."""
import numpy as np
import jax.numpy as jnp
from emlp.reps.representation import Rep
from emlp.reps.linear_operator_base import LinearOperator


class Custom(Rep):
    """the atoms of the specification: det^n, psi_n : M -> M^n, Ad and the trivial representation of size n.
    Only rho is defined: the Lie algebra action is the default one."""
    base = ""

    def __init__(self, n, G=None):
        self.n = n
        self.G = G

    def __call__(self, G):
        return self.__class__(self.n, G)

    def rho(self, M):
        if isinstance(M, dict):
            M = M[self.G]
        return self.act(M.to_dense() if isinstance(M, LinearOperator) else jnp.asarray(M))

    def __str__(self):
        return f"{self.base}{self.n}"


class DetRep(Custom):
    base = "det"

    def size(self):
        return 1

    def act(self, M):
        return jnp.linalg.det(M).reshape(1, 1) ** self.n


class PsiRep(Custom):
    base = "psi"

    def size(self):
        return self.G.d

    def act(self, M):
        out = M
        for _ in range(self.n - 1):
            out = out @ M
        return out


class AdRep(Custom):
    base = "Ad"   # its size is found by the library from a sample

    def act(self, M):
        return jnp.kron(M, jnp.linalg.inv(M).T)


class TrivRep(Custom):
    base = "triv"

    def size(self):
        return self.n

    def act(self, M):
        return jnp.eye(self.n)


CUSTOM = dict(det=DetRep, psi=PsiRep, Ad=AdRep, triv=TrivRep)
