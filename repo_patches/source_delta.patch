From 7405fcfa72e873f72e421857c430523b155c44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 01/36] fix: group names identify the group (Embed slice,
 argument separator)

---
 emlp/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e74f69..ebfe77a 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -86,7 +86,7 @@ class Group(object,metaclass=Named):
     def __repr__(self):
         outstr = f"{self.__class__}"
         if self.args:
-            outstr += '('+''.join(repr(arg) for arg in self.args)+')'
+            outstr += '('+','.join(repr(arg) for arg in self.args)+')'
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
@@ -437,7 +437,7 @@ class Embed(Group):
         self.discrete_generators += np.eye(d)
         self.lie_algebra[:,slice,slice] = G.lie_algebra
         self.discrete_generators[:,slice,slice]  =G.discrete_generators
-        self.name = f"{G}_R{d}"
+        self.name = f"{G}_R{d}[{slice}]"
         super().__init__()
    
     def __repr__(self):
-- 
2.43.0


From 236e2d0b010da14436ee5fdccc5263478d31af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 02/36] fix: canonical ordering of representations is a strict
 total order

---
 emlp/reps/representation.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ad31ef1..a031993 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -165,14 +165,11 @@ class Rep(object):
     def __lt__(self, other):
         """ less than defined to disambiguate ordering multiple different representations.
             Canonical ordering is determined first by Group, then by size, then by hash"""
-        if other==Scalar: return False
-        try: 
-            if self.G<other.G: return True
-            if self.G>other.G: return False
-        except (AttributeError,TypeError): pass
-        if self.size()<other.size(): return True
-        if self.size()>other.size(): return False
-        return hash(self) < hash(other) #For sorting purposes only
+        k1,k2 = self._order_key(),other._order_key()
+        return (k1<k2) if k1!=k2 else (repr(self)<repr(other)) #For sorting purposes only
+    def _order_key(self):
+        G = None if isinstance(self,ScalarRep) else getattr(self,'G',None)
+        return (G is not None,hash(G) if G is not None else 0,self.size(),isinstance(self,Dual),hash(self))
     def __mod__(self,other): # Wreath product
         """ Wreath product of representations (Not yet implemented)"""
         raise NotImplementedError
@@ -256,9 +253,6 @@ class Base(Rep):
         return hash((type(self),self.G))
     def __eq__(self,other):
         return type(other)==type(self) and self.G==other.G
-    def __lt__(self,other):
-        if isinstance(other,Dual): return True
-        return super().__lt__(other)
     # @property
     # def T(self):
     #     return Dual(self.G)
@@ -286,9 +280,6 @@ class Dual(Rep):
         return type(other)==type(self) and self.rep==other.rep
     def __hash__(self):
         return hash((type(self),self.rep))
-    def __lt__(self,other):
-        if other==self.rep: return False
-        return super().__lt__(other)
     def size(self):
         return self.rep.size()
         
-- 
2.43.0


From d5b3415af35f694420c75cf56e0c7ad1f15a81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 03/36] fix: sum and product representations are hashable in
 any ordering

---
 emlp/reps/product_sum_reps.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ceb9296..b8fe233 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -44,7 +44,6 @@ class SumRep(Rep):
         return self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
-        assert self.canonical
         return hash(tuple(self.reps.items()))
 
     @property
@@ -257,7 +256,7 @@ class ProductRep(Rep):
             self.perm = extra_perm[perm] if extra_perm is not None else perm
 
         self.invperm = np.argsort(self.perm)
-        self.canonical=(self.perm==self.invperm).all()
+        self.canonical=(self.perm==np.arange(len(self.perm))).all()
         Gs = tuple(set(rep.G for rep in self.reps.keys()))
         assert len(Gs)==1, f"Multiple different groups {Gs} in product rep {self}"
         self.G= Gs[0]
@@ -277,7 +276,6 @@ class ProductRep(Rep):
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
     def __hash__(self):
-        assert self.canonical, f"Not canonical {repr(self)}? perm {self.perm}"
         return hash(tuple(self.reps.items()))
     def __eq__(self, other): #TODO: worry about non canonical?
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
@@ -365,7 +363,7 @@ class DirectProduct(ProductRep):
             self.reps,perm2 = self.compute_canonical([counter],[np.arange(self.size())])
             self.perm = extra_perm[perm[perm2]] if extra_perm is not None else perm[perm2]
         self.invperm = np.argsort(self.perm)
-        self.canonical=(self.perm==self.invperm).all()
+        self.canonical=(self.perm==np.arange(len(self.perm))).all()
         # self.G = tuple(set(rep.G for rep in self.reps.keys()))
         # if len(self.G)==1: self.G= self.G[0]
         self.is_permutation = all(rep.is_permutation for rep in self.reps.keys())
-- 
2.43.0


From d97c857547d8648cc3a7962e9fa82a2bbf4540b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 04/36] fix: factors of a mixed product are kept in canonical
 order

---
 emlp/reps/product_sum_reps.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index b8fe233..6b6d8b3 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -358,9 +358,8 @@ class DirectProduct(ProductRep):
             group_dict = defaultdict(lambda: 1)
             for rep,c in reps.items():
                 group_dict[rep.G]=group_dict[rep.G]*rep**c
-            sub_products = {rep:1 for G,rep in group_dict.items()}
-            self.reps = counter = sub_products
-            self.reps,perm2 = self.compute_canonical([counter],[np.arange(self.size())])
+            sub_products,sub_perms = zip(*[rep.canonicalize() for rep in group_dict.values()])
+            self.reps,perm2 = self.compute_canonical([{rep:1} for rep in sub_products],sub_perms)
             self.perm = extra_perm[perm[perm2]] if extra_perm is not None else perm[perm2]
         self.invperm = np.argsort(self.perm)
         self.canonical=(self.perm==np.arange(len(self.perm))).all()
-- 
2.43.0


From d47a49e03dfacfc4df520e43357d575b25ceb300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 05/36] fix: comparing a sum with any other representation is
 False, not an error

---
 emlp/reps/product_sum_reps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 6b6d8b3..f609225 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -41,7 +41,7 @@ class SumRep(Rep):
         return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)
 
     def __eq__(self, other):
-        return self.reps==other.reps and (self.perm==other.perm).all()
+        return isinstance(other,SumRep) and self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
         return hash(tuple(self.reps.items()))
-- 
2.43.0


From 885e2b1c6ca92cf86087c6fd204e3488bf0ab08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 06/36] fix: transposes of lazy direct sums keep the
 multiplicities

---
 emlp/reps/linear_operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 830ee13..bcbc168 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -137,8 +137,8 @@ class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
         self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
-        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)),
-                      sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)))
+        shape = (sum(Mi.shape[0]*c for Mi,c in zip(self.Ms,self.multiplicities)),
+                      sum(Mi.shape[1]*c for Mi,c in zip(self.Ms,self.multiplicities)))
         super().__init__(None,shape)
         #self.dtype=Ms[0].dtype
         #self.dtype=jnp.dtype('float32')
@@ -149,9 +149,9 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms])
+        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms])
+        return LazyDirectSum([M.invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From edfb7ed6a95fa2a965dd2db5590daf86dd2189bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 07/36] fix: adjoints of lazy matrices conjugate complex
 entries

---
 emlp/reps/linear_operator_base.py |  4 ++--
 emlp/reps/linear_operators.py     | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 41eab9a..cb151c5 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -727,9 +727,9 @@ class Lazy(LinearOperator):
     def _matvec(self,v):
         return self.A@v
     def _rmatmat(self,V):
-        return self.A.T@V
+        return self.A.conj().T@V
     def _rmatvec(self,v):
-        return self.A.T@v
+        return self.A.conj().T@v
     def to_dense(self):
         return self.A
     def invT(self):
diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index bcbc168..f68103d 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -17,6 +17,9 @@ def densify(x):
     elif isinstance(x,(jnp.ndarray,np.ndarray)): return x
     else: raise NotImplementedError
 
+def hermitian(x):
+    return x.H if isinstance(x,LinearOperator) else x.conj().T
+
 class I(LinearOperator):
     def __init__(self,d):
         shape = (d,d)
@@ -48,7 +51,7 @@ class LazyKron(LinearOperator):
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-        return LazyKron([Mi.T for Mi in self.Ms])
+        return LazyKron([hermitian(Mi) for Mi in self.Ms])
     def invT(self):
         return LazyKron([M.invT() for M in self.Ms])
     def to_dense(self):
@@ -85,7 +88,7 @@ class LazyKronsum(LinearOperator):
         return out.reshape(self.shape[0],ev.shape[-1])
         
     def _adjoint(self):
-        return LazyKronsum([Mi.T for Mi in self.Ms])
+        return LazyKronsum([hermitian(Mi) for Mi in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(kronsum,Ms)
@@ -104,7 +107,7 @@ class LazyJVP(LinearOperator):
     def __init__(self,operator_fn,X,TX):
         self.shape = operator_fn(X).shape
         self.vjp = lambda v: jax.jvp(lambda x: operator_fn(x)@v,[X],[TX])[1]
-        self.vjp_T = lambda v: jax.jvp(lambda x: operator_fn(x).T@v,[X],[TX])[1]
+        self.vjp_T = lambda v: jax.jvp(lambda x: hermitian(operator_fn(x))@v,[X],[TX])[1]
         self.dtype=jnp.dtype('float32')
     def _matmat(self,v):
         return self.vjp(v)
@@ -128,7 +131,7 @@ class ConcatLazy(LinearOperator):
         return jnp.concatenate([M@V for M in self.Ms],axis=0)
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
-        return sum([self.Ms[i].T@Vs[i] for i in range(len(self.Ms))])
+        return sum([hermitian(self.Ms[i])@Vs[i] for i in range(len(self.Ms))])
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
@@ -149,7 +152,7 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
+        return LazyDirectSum([hermitian(Mi) for Mi in self.Ms],self.multiplicities)
     def invT(self):
         return LazyDirectSum([M.invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
-- 
2.43.0


From 8d54f74cb9643817584e3c507b587f8c7a7d8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 08/36] fix: inverse transpose of scaled and summed lazy
 matrices

---
 emlp/reps/linear_operator_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index cb151c5..98840e8 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -556,7 +556,7 @@ class _SumLinearOperator(LinearOperator):
 
     def invT(self):
         A,B = self.args
-        return A.invT() + B.invT()
+        return Lazy(np.linalg.inv(A.to_dense()+B.to_dense()).T)
 
 class _ProductLinearOperator(LinearOperator):
     def __init__(self, A, B):
@@ -623,7 +623,7 @@ class _ScaledLinearOperator(LinearOperator):
         return A.H * np.conj(alpha)
     def invT(self):
         A, alpha = self.args
-        return (1/alpha)*A.T
+        return (1/alpha)*A.invT()
     def to_dense(self):
         A, alpha = self.args
         return alpha*A.to_dense()
-- 
2.43.0


From 14a6cf7979f5bec99c719b13220d9fcd9db20fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 09/36] fix: inverse transpose of lazy products and sums with
 dense factors

---
 emlp/reps/linear_operators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index f68103d..754955b 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -20,6 +20,9 @@ def densify(x):
 def hermitian(x):
     return x.H if isinstance(x,LinearOperator) else x.conj().T
 
+def inverse_transpose(x):
+    return x.invT() if isinstance(x,LinearOperator) else jnp.linalg.inv(x).T
+
 class I(LinearOperator):
     def __init__(self,d):
         shape = (d,d)
@@ -53,7 +56,7 @@ class LazyKron(LinearOperator):
     def _adjoint(self):
         return LazyKron([hermitian(Mi) for Mi in self.Ms])
     def invT(self):
-        return LazyKron([M.invT() for M in self.Ms])
+        return LazyKron([inverse_transpose(M) for M in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(jnp.kron,Ms)
@@ -154,7 +157,7 @@ class LazyDirectSum(LinearOperator):
     def _adjoint(self):
         return LazyDirectSum([hermitian(Mi) for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms],self.multiplicities)
+        return LazyDirectSum([inverse_transpose(M) for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 92a37aaa1b4ab7514a0e34746a628df0f4c71ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 10/36] fix: transposed operators that define rmatmat can act
 on vectors

---
 emlp/reps/linear_operator_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 98840e8..3c0b105 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -239,10 +239,11 @@ class LinearOperator(object):
         return y
 
     def _rmatvec(self, x):
-        """Default implementation of _rmatvec; defers to adjoint."""
+        """Default implementation of _rmatvec; defers to rmatmat or adjoint."""
         if type(self)._adjoint == LinearOperator._adjoint:
             # _adjoint not overridden, prevent infinite recursion
-            raise NotImplementedError
+            if type(self)._rmatmat == LinearOperator._rmatmat: raise NotImplementedError
+            return self._rmatmat(x.reshape(-1,1))
         else:
             return self.H.matvec(x)
 
-- 
2.43.0


From 6530d91fa260e89f6982fb9c357b3eeb9b39d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 11/36] fix: SwapMatrix works without the removed
 jax.ops.index_update

---
 emlp/reps/linear_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 754955b..51b60f5 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -216,7 +216,7 @@ class SwapMatrix(LinearOperator):
         shape = (n,n)
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
-        V = jax.ops.index_update(V, jax.ops.index[self.swaprows], V[self.swaprows[::-1]])
+        V = V.at[jnp.array(self.swaprows)].set(V[jnp.array(self.swaprows[::-1])])
         return V
     def _matvec(self,V):
         return self._matmat(V)
-- 
2.43.0


From 1cb9c28baf8295394ae75c247f46612da7bd592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 12/36] fix: Rot90 has an adjoint

---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 51b60f5..88843ad 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -235,5 +235,7 @@ class Rot90(LinearOperator):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
     def _matvec(self,V):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
+    def _adjoint(self):
+        return Rot90(self.n,-self.k)
     def invT(self):
         return self
\ No newline at end of file
-- 
2.43.0


From 1b736f43b0a52b4605c9d898ae0f1b71245eab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 13/36] fix: dihedral groups contain a reflection, so are not
 permutations

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index ebfe77a..49dc95d 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -173,6 +173,7 @@ class D(C):
     def __init__(self,k):
         super().__init__(k)
         self.discrete_generators = np.concatenate((self.discrete_generators,np.array([[[-1,0],[0,1]]])))
+        self.is_permutation = False # contains a reflection
 @export
 class Scaling(Group):
     """ The scaling group in n dimensions"""
-- 
2.43.0


From b92569c045cadd925385da13b42d47a651965b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 14/36] fix: one dimensional SO, SU, SL and S can be
 constructed

---
 emlp/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 49dc95d..83d6300 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -22,7 +22,7 @@ class Group(object,metaclass=Named):
     def __init__(self,*args,**kwargs):
         # get the dimension of the base group representation
         if self.d is NotImplemented: 
-            if self.lie_algebra is not NotImplemented and len(self.lie_algebra):
+            if self.lie_algebra is not NotImplemented and (len(self.lie_algebra) or isinstance(self.lie_algebra,np.ndarray)):
                 self.d= self.lie_algebra[0].shape[-1]
             if self.discrete_generators is not NotImplemented and len(self.discrete_generators):
                 self.d= self.discrete_generators[0].shape[-1]
@@ -262,6 +262,7 @@ class S(Group): #The permutation group
     def __init__(self,n):
         # Here we choose n-1 generators consisting of swaps between the first element
         # and every other element
+        self.d = n
         perms = np.arange(n)[None]+np.zeros((n-1,1)).astype(int)
         perms[:,0] = np.arange(1,n)
         perms[np.arange(n-1),np.arange(1,n)[None]]=0
@@ -328,7 +329,6 @@ class U(Group):  # Of dimension n^2
 class SU(Group):  # Of dimension n^2-1
     """ The special unitary group SU(n) in n dimensions (complex)"""
     def __init__(self,n):
-        if n==1: return Trivial(1)
         lie_algebra_real = np.zeros((n**2-1,n,n))
         lie_algebra_imag = np.zeros((n**2-1,n,n))
         k=0
-- 
2.43.0


From a511492afa779af3931dcbcdaa4346481bd4f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 15/36] fix: concrete sums and products can be instantiated
 with another group

---
 emlp/reps/product_sum_reps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index f609225..aff743f 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -65,7 +65,7 @@ class SumRep(Rep):
         return SumRepFromCollection(self.reps),self.perm
 
     def __call__(self,G):
-        return SumRepFromCollection({rep(G):c for rep,c in self.reps.items()},perm=self.perm)
+        return SumRep(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
 
     @property
     def concrete(self):
@@ -262,6 +262,9 @@ class ProductRep(Rep):
         self.G= Gs[0]
         self.is_permutation = all(rep.is_permutation for rep in self.reps.keys())
 
+    def __call__(self,G):
+        return self.__class__(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
+
     def size(self):
         return product([rep.size()**count for rep,count in self.reps.items()])
 
@@ -368,6 +371,9 @@ class DirectProduct(ProductRep):
         self.is_permutation = all(rep.is_permutation for rep in self.reps.keys())
         assert all(count==1 for count in self.reps.values())
 
+    def __call__(self,G):
+        raise NotImplementedError("A product over several groups can not be given a single group")
+
     def equivariant_basis(self):
         canon_Q = LazyKron([rep.equivariant_basis() for rep,c in self.reps.items()])
         return LazyPerm(self.invperm)@canon_Q
-- 
2.43.0


From 11b7ac45c33b6ca723efabff408fc573b0a43fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 16/36] fix: bilinear weights for representations that are not
 sums

---
 emlp/reps/representation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index a031993..885c0f9 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -408,11 +408,12 @@ def sparsify_basis(Q,lr=1e-2): #(n,r)
 @export
 def bilinear_weights(out_rep,in_rep):
     #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
-    W_rep,W_perm = (in_rep>>out_rep).canonicalize()
+    SumRep = emlp.reps.product_sum_reps.SumRep
+    W_rep,W_perm = SumRep(in_rep>>out_rep).canonicalize()
     # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
     inv_perm = np.argsort(W_perm)
     mat_shape = out_rep.size(),in_rep.size()
-    x_rep=in_rep
+    x_rep = in_rep if isinstance(in_rep,SumRep) else SumRep(in_rep)
     W_multiplicities = W_rep.reps
     x_multiplicities = x_rep.reps
     x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
-- 
2.43.0


From a6a8c0548ded6774db98320efc3776ee25268ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 17/36] fix: gate indices for representations that are not sums

---
 emlp/nn/objax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2f92846..60737c5 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -333,11 +333,11 @@ def gate_indices(ch_rep:Rep) -> jnp.ndarray:
     """ Indices for scalars, and also additional scalar gates
         added by gated(sumrep)"""
     channels = ch_rep.size()
-    perm = ch_rep.perm
     indices = np.arange(channels)
 
     if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
-        return indices if ch_rep.is_permutation else np.ones(ch_rep.size())*ch_rep.size()
+        return indices if ch_rep.is_permutation else np.full(channels,channels)
+    perm = ch_rep.perm
 
     num_nonscalars = 0
     i=0
-- 
2.43.0


From 6ce01f86a94fc5a8689a71dba67841815e84d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 18/36] fix: group augmentation of the datasets uses concrete
 dense representations

---
 emlp/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/datasets.py b/emlp/datasets.py
index cc01f03..0baeda6 100644
--- a/emlp/datasets.py
+++ b/emlp/datasets.py
@@ -105,11 +105,11 @@ class ParticleInteraction(object):
 class GroupAugmentation(Module):
     def __init__(self,network,rep_in,rep_out,group):
         super().__init__()
-        self.rep_in=rep_in
-        self.rep_out=rep_out
+        self.rep_in=rep_in(group)
+        self.rep_out=rep_out(group)
         self.G=group
-        self.rho_in = jit(vmap(self.rep_in.rho))
-        self.rho_out = jit(vmap(self.rep_out.rho))
+        self.rho_in = jit(vmap(self.rep_in.rho_dense))
+        self.rho_out = jit(vmap(self.rep_out.rho_dense))
         self.model = network
     def __call__(self,x,training=True):
         if training:
-- 
2.43.0


From 15285a04d496ca7168b4c6d51109ccfba9f78ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 19/36] fix: pytorch Standardize calls its module the way the
 modules are defined

---
 emlp/nn/pytorch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b41b251..4df5957 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -210,11 +210,11 @@ class Standardize(nn.Module):
         self.model = model
         self.ds_stats=ds_stats
 
-    def forward(self,x,training):
+    def forward(self,x,training=True):
         if len(self.ds_stats)==2:
             muin,sin = self.ds_stats
-            return self.model((x-muin)/sin,training=training)
+            return self.model((x-muin)/sin)
         else:
             muin,sin,muout,sout = self.ds_stats
-            y = sout*self.model((x-muin)/sin,training=training)+muout
+            y = sout*self.model((x-muin)/sin)+muout
             return y
-- 
2.43.0


From 46042135f027935b5caff25a0b3906dcab7baab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 20/36] fix: the equivariant basis is not NaN when the SVD
 fails to converge

---
 emlp/reps/representation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 885c0f9..ff9c208 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -3,6 +3,7 @@ import jax
 import jax.numpy as jnp
 from jax import jit, device_put,vmap
 import optax
+from scipy.linalg import svd
 from sklearn.cluster import KMeans
 from tqdm.auto import tqdm
 from .linear_operator_base import LinearOperator, Lazy
@@ -295,6 +296,8 @@ def T(p,q=0,G=None):
 def orthogonal_complement(proj):
     """ Computes the orthogonal complement to a given matrix proj"""
     U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if not jnp.isfinite(S).all(): # the divide and conquer SVD did not converge, use QR iterations
+        U,S,VH = map(jnp.asarray,svd(np.asarray(proj),lapack_driver='gesvd'))
     rank = (S>1e-5).sum()
     return VH[rank:].conj().T
 
-- 
2.43.0


From 9e5191251f2bfa262e66e24add69d0f50a3ef7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 21/36] fix: one dimensional groups with an empty Lie algebra
 know their dimension

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 83d6300..f637ad9 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -23,7 +23,7 @@ class Group(object,metaclass=Named):
         # get the dimension of the base group representation
         if self.d is NotImplemented: 
             if self.lie_algebra is not NotImplemented and (len(self.lie_algebra) or isinstance(self.lie_algebra,np.ndarray)):
-                self.d= self.lie_algebra[0].shape[-1]
+                self.d= self.lie_algebra[0].shape[-1] if len(self.lie_algebra) else self.lie_algebra.shape[-1]
             if self.discrete_generators is not NotImplemented and len(self.discrete_generators):
                 self.d= self.discrete_generators[0].shape[-1]
 
-- 
2.43.0


From 2bdbffaabd59c059826fd33bb7470d06c01978e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 22/36] fix: default Lie algebra action accepts complex and
 integer elements

---
 emlp/reps/representation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ff9c208..726d4b8 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -40,7 +40,8 @@ class Rep(object):
         
     def drho(self,A): 
         """ Lie Algebra representation of the matrix A of shape (d,d)"""
-        In = jnp.eye(A.shape[0])
+        A = jnp.asarray(A,dtype=jnp.result_type(A,float))
+        In = jnp.eye(A.shape[0],dtype=A.dtype)
         return LazyJVP(self.rho,In,A)
 
     def __call__(self,G):
-- 
2.43.0


From 44d81cfe3c8b57dc625cdf1ee492e79b5784ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 23/36] fix: Embed keeps complex generators and accepts lazy
 ones

---
 emlp/groups.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index f637ad9..17b0430 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -433,11 +433,13 @@ class Embed(Group):
     d: the dimension in which to embed
     slice: a slice object specifying which dimensions G acts on."""
     def __init__(self,G,d,slice):
-        self.lie_algebra = np.zeros((G.lie_algebra.shape[0],d,d))
-        self.discrete_generators = np.zeros((G.discrete_generators.shape[0],d,d))
+        dense = lambda Ms: np.array([Mi@jnp.eye(G.d) for Mi in Ms]).reshape(-1,G.d,G.d)
+        A_dense,h_dense = dense(G.lie_algebra),dense(G.discrete_generators)
+        self.lie_algebra = np.zeros((A_dense.shape[0],d,d),A_dense.dtype)
+        self.discrete_generators = np.zeros((h_dense.shape[0],d,d),h_dense.dtype)
         self.discrete_generators += np.eye(d)
-        self.lie_algebra[:,slice,slice] = G.lie_algebra
-        self.discrete_generators[:,slice,slice]  =G.discrete_generators
+        self.lie_algebra[:,slice,slice] = A_dense
+        self.discrete_generators[:,slice,slice]  =h_dense
         self.name = f"{G}_R{d}[{slice}]"
         super().__init__()
    
-- 
2.43.0


From 6d5e0cfa268bba753cab9892880fac761097e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 24/36] fix: lazy direct sums keep the imaginary part of numpy
 matrices

---
 emlp/reps/linear_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 88843ad..40ec57e 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -141,7 +141,7 @@ class ConcatLazy(LinearOperator):
     
 class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
-        self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
+        self.Ms = [jax.device_put(M.astype(np.complex64 if np.iscomplexobj(M) else np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
         shape = (sum(Mi.shape[0]*c for Mi,c in zip(self.Ms,self.multiplicities)),
                       sum(Mi.shape[1]*c for Mi,c in zip(self.Ms,self.multiplicities)))
-- 
2.43.0


From 6d0d051556c741908c706190c9e3fe118614b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 25/36] fix: deferred sums and products are hashable

---
 emlp/reps/product_sum_reps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index aff743f..76aa178 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -401,6 +401,7 @@ class DeferredSumRep(Rep):
         for rep in reps:
             #assert not isinstance(rep,SumRep),f"{rep} of type {type(rep)} tosum {self.to_sum}"
             self.to_sum.extend(rep.to_sum if isinstance(rep,DeferredSumRep) else [rep])
+        self.to_sum = tuple(self.to_sum)
        
     def __call__(self,G):
         if G is None: return self
@@ -422,6 +423,7 @@ class DeferredProductRep(Rep):
         for rep in reps:
             assert not isinstance(rep,ProductRep)
             self.to_prod.extend(rep.to_prod if isinstance(rep,DeferredProductRep) else [rep])
+        self.to_prod = tuple(self.to_prod)
     def __call__(self,G):
         if G is None: return self
         return reduce(lambda a,b:a*b,[rep(G) for rep in self.to_prod])
-- 
2.43.0


From 82664110c2f9d316729a01d3eff542b0ebb4f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 26/36] fix: a concrete product can be multiplied with a
 deferred representation

---
 emlp/reps/product_sum_reps.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 76aa178..ac3ad34 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -421,7 +421,6 @@ class DeferredProductRep(Rep):
     def __init__(self,*reps):
         self.to_prod=[]
         for rep in reps:
-            assert not isinstance(rep,ProductRep)
             self.to_prod.extend(rep.to_prod if isinstance(rep,DeferredProductRep) else [rep])
         self.to_prod = tuple(self.to_prod)
     def __call__(self,G):
-- 
2.43.0


From f773a993f2cf0b4a668b9d45bca805e7ef915fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 27/36] fix: default Lie algebra action accepts elements of
 several groups

---
 emlp/reps/representation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 726d4b8..c9c46a9 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -40,6 +40,7 @@ class Rep(object):
         
     def drho(self,A): 
         """ Lie Algebra representation of the matrix A of shape (d,d)"""
+        if hasattr(self,'G') and isinstance(A,dict): A=A[self.G]
         A = jnp.asarray(A,dtype=jnp.result_type(A,float))
         In = jnp.eye(A.shape[0],dtype=A.dtype)
         return LazyJVP(self.rho,In,A)
-- 
2.43.0


From fa6ffd5d3db7ffd7eebc18c61d6e6f896ec1a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 28/36] fix: giving a concrete sum or product a group of
 another dimension is an error

---
 emlp/reps/product_sum_reps.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ac3ad34..74f22e8 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -65,7 +65,7 @@ class SumRep(Rep):
         return SumRepFromCollection(self.reps),self.perm
 
     def __call__(self,G):
-        return SumRep(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
+        return SumRep(*[reinstantiate(rep,G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
 
     @property
     def concrete(self):
@@ -141,6 +141,13 @@ class SumRep(Rep):
 
 
 
+def reinstantiate(rep,G):
+    """ Instantiates a factor of a concrete sum or product with another group. The coordinates
+        of the whole can only be kept when the factor has the same size for the other group."""
+    new_rep = rep(G)
+    assert new_rep.size()==rep.size(), f"{rep} has size {rep.size()} but {new_rep.size()} for {G}"
+    return new_rep
+
 def both_concrete(rep1,rep2):
     return all(rep.concrete for rep in (rep1,rep2) if hasattr(rep,'concrete'))
 
@@ -263,7 +270,7 @@ class ProductRep(Rep):
         self.is_permutation = all(rep.is_permutation for rep in self.reps.keys())
 
     def __call__(self,G):
-        return self.__class__(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
+        return self.__class__(*[reinstantiate(rep,G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
 
     def size(self):
         return product([rep.size()**count for rep,count in self.reps.items()])
-- 
2.43.0


From 5ad8d1876014f046e60ff2762a5c98037f14245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 29/36] fix: whole cube rotations of RubiksCube turn the
 stickers on the faces

---
 emlp/groups.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 17b0430..fb22424 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -377,6 +377,11 @@ def unpad(padded_perm):
 
 
 
+def turn(padded_perm,faces,k):
+    """ Rotates the stickers on the given faces k quarter turns counterclockwise """
+    for f in faces:
+        padded_perm[f] = np.rot90(padded_perm[f].reshape(3,3),k).reshape(9)
+
 @export
 class RubiksCube(Group): #3x3 rubiks cube
     r""" The Rubiks cube group G<S_48 consisting of all valid 3x3 Rubik's cube transformations.
@@ -394,11 +399,16 @@ class RubiksCube(Group): #3x3 rubiks cube
         RotFront =pad(np.arange(48))# rotate full cube so that Left face becomes Up, Up becomes Right, Right becomes Down, Down becomes Left
         URDL = np.array([0,2,5,4])
         RotFront[URDL,:] = RotFront[np.roll(URDL,1),:]
+        turn(RotFront,[0,2,5,4,1],-1) # the stickers on these faces turn clockwise with the cube
+        turn(RotFront,[3],1)
         RotFront = unpad(RotFront)
         RotBack = np.argsort(RotFront)
         RotLeft = pad(np.arange(48))
         UFDB = np.array([0,1,5,3])
         RotLeft[UFDB,:] = RotLeft[np.roll(UFDB,1),:]
+        turn(RotLeft,[4],-1)
+        turn(RotLeft,[2],1)
+        turn(RotLeft,[0,3],2) # Back is stored upright, so it is upside down when seen from U and D
         RotLeft = unpad(RotLeft)
         RotRight = np.argsort(RotLeft)
 
-- 
2.43.0


From 5888fac8a8d4258c10d8bda4dfbf0d594302f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 30/36] fix: Kronecker products with an empty factor can be
 applied

---
 emlp/reps/linear_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 40ec57e..2a7f7cc 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -47,10 +47,10 @@ class LazyKron(LinearOperator):
     def _matvec(self,v):
         return self._matmat(v).reshape(-1)
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],v.shape[1] if v.ndim>1 else 1)
         for i,M in enumerate(self.Ms):
             ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product(ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-- 
2.43.0


From 0cdc5294a0eaf7aad39a2ced9bc027f0f2d3d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 31/36] fix: default Lie algebra action accepts lazy Lie
 algebra elements

---
 emlp/reps/representation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index c9c46a9..e213f71 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -41,6 +41,7 @@ class Rep(object):
     def drho(self,A): 
         """ Lie Algebra representation of the matrix A of shape (d,d)"""
         if hasattr(self,'G') and isinstance(A,dict): A=A[self.G]
+        if isinstance(A,LinearOperator): A = A.to_dense()
         A = jnp.asarray(A,dtype=jnp.result_type(A,float))
         In = jnp.eye(A.shape[0],dtype=A.dtype)
         return LazyJVP(self.rho,In,A)
-- 
2.43.0


From 5e604d1150502205c94dd10d7605028d96ca7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 32/36] fix: iterative solver accepts solution spaces as large
 as the whole space

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index e213f71..8137f65 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -367,7 +367,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     # final_L
     final_L = loss_and_grad(Q)[0]
     if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
-    scutoff = (S[rank] if r>rank else 0)
+    scutoff = (S[rank] if len(S)>rank else 0)
     assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
         above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
     #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-- 
2.43.0


From 2cc6803c38776a0256e10e110e113f928849f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 33/36] fix: iterative solver orthogonalizes the iterate that
 met the tolerance, not the next one

---
 emlp/reps/representation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 8137f65..c5004e9 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -341,8 +341,6 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     for i in range(20000):
         
         lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
-        W = optax.apply_updates(W, updates)
         # update progress bar
         progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
         progress = min(100-prog_val,progress)
@@ -357,6 +355,8 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
             logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
             if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
             return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
+        updates, opt_state = opt_update(grad, opt_state, W)
+        W = optax.apply_updates(W, updates)
     else: raise ConvergenceError("Failed to converge.")
     # Orthogonalize solution at the end
     U,S,VT = np.linalg.svd(np.array(W),full_matrices=False) 
-- 
2.43.0


From 67cb7192860b4b868af46d228e1160e0c2f05b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 34/36] fix: iterative solver retries with a smaller learning
 rate when the loss overflows

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index c5004e9..a01faf2 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -351,7 +351,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
         if jnp.sqrt(lossval) <tol: # check convergence condition
             pbar.close()
             break # has converged
-        if lossval>2e3 and i>100: # Solve diverged due to too high learning rate
+        if not lossval<=2e3 and i>100: # Solve diverged due to too high learning rate
             logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
             if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
             return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
-- 
2.43.0


From 0de8a0d353e769632b1d5a05020fa7ff854820ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 35/36] fix: iterative solver raises instead of returning a
 basis that violates its constraints

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index a01faf2..ddb9bf5 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -366,7 +366,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     Q = device_put(U[:,:rank])
     # final_L
     final_L = loss_and_grad(Q)[0]
-    if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
+    if final_L >tol: raise ConvergenceError(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
     scutoff = (S[rank] if len(S)>rank else 0)
     assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
         above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
-- 
2.43.0


From b5318bac1b87aca247592625f1b4968c5dd8d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 36/36] fix: direct products of groups without generators know
 their dimension

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index fb22424..b00708a 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -474,6 +474,7 @@ def DkeR3(k):
 
 class DirectProduct(Group):
     def __init__(self,G1,G2):
+        self.d = G1.d*G2.d
         I1,I2 = I(G1.d),I(G2.d)
         self.lie_algebra = [LazyKronsum([A1,0*I2]) for A1 in G1.lie_algebra]+[LazyKronsum([0*I1,A2]) for A2 in G2.lie_algebra]
         self.discrete_generators = [LazyKron([M1,I2]) for M1 in G1.discrete_generators]+[LazyKron([I1,M2]) for M2 in G2.discrete_generators]
-- 
2.43.0

