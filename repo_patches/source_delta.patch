From ec91f54e5429711543538c6c7d9bd5020a0b9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 01/47] fix: order reps by a strict total order when
 canonicalizing

SumRep/ProductRep canonicalization merges already sorted operands, which is only
correct if sorting is independent of which other reps are present. Rep.__lt__ was
neither transitive (reps of several groups were compared by size, others by group
first) nor antisymmetric (Base < Dual was always true), so that e.g.
V(G1)**2 + V(G1)*V(G2) + V(G2) came out with its blocks scrambled.
---
 emlp/reps/representation.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ad31ef1..12551a1 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -165,14 +165,16 @@ class Rep(object):
     def __lt__(self, other):
         """ less than defined to disambiguate ordering multiple different representations.
             Canonical ordering is determined first by Group, then by size, then by hash"""
-        if other==Scalar: return False
-        try: 
-            if self.G<other.G: return True
-            if self.G>other.G: return False
-        except (AttributeError,TypeError): pass
-        if self.size()<other.size(): return True
-        if self.size()>other.size(): return False
-        return hash(self) < hash(other) #For sorting purposes only
+        return self._order_key() < other._order_key() #For sorting purposes only
+    def _order_key(self):
+        """ Key for the canonical ordering, which must be a strict total order (independent
+            of which other reps are present) for canonicalized orderings to be compatible.
+            Scalars come first, reps of several groups (without a single G) last,
+            and a rep directly before its dual."""
+        rep,isdual = (self.rep,True) if isinstance(self,Dual) else (self,False)
+        G = getattr(self,"G",None)
+        if self==Scalar: return (False,)
+        return (True,G is None,0 if G is None else hash(G),self.size(),hash(rep),isdual)
     def __mod__(self,other): # Wreath product
         """ Wreath product of representations (Not yet implemented)"""
         raise NotImplementedError
@@ -256,9 +258,6 @@ class Base(Rep):
         return hash((type(self),self.G))
     def __eq__(self,other):
         return type(other)==type(self) and self.G==other.G
-    def __lt__(self,other):
-        if isinstance(other,Dual): return True
-        return super().__lt__(other)
     # @property
     # def T(self):
     #     return Dual(self.G)
@@ -286,9 +285,6 @@ class Dual(Rep):
         return type(other)==type(self) and self.rep==other.rep
     def __hash__(self):
         return hash((type(self),self.rep))
-    def __lt__(self,other):
-        if other==self.rep: return False
-        return super().__lt__(other)
     def size(self):
         return self.rep.size()
         
-- 
2.43.0


From 83b2c417b8e4df8a425da6f96aa17ca0769e6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 02/47] fix: instantiating Scalar with a group no longer
 mutates the shared instance

T(0)(G1) returned the global Scalar, so a later T(0)(G2) changed the group of the first.
---
 emlp/reps/representation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 12551a1..e9a7cd8 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -206,8 +206,7 @@ class ScalarRep(Rep):
         self.G=G
         self.is_permutation = True
     def __call__(self,G):
-        self.G=G
-        return self
+        return self.__class__(G)
     def size(self):
         return 1
     def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
-- 
2.43.0


From a0805d4486b00320915fb5f885c373ef668b58d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 03/47] fix: distinguish Embed groups acting on different
 dimensions

Groups compare and hash by repr, and the solution cache is keyed by the group, so
Embed(G,3,slice(0,2)) and Embed(G,3,slice(1,3)) shared solutions.
---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e74f69..0d1d4ef 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -437,7 +437,7 @@ class Embed(Group):
         self.discrete_generators += np.eye(d)
         self.lie_algebra[:,slice,slice] = G.lie_algebra
         self.discrete_generators[:,slice,slice]  =G.discrete_generators
-        self.name = f"{G}_R{d}"
+        self.name = f"{G}_R{d}_{np.arange(d)[slice].tolist()}"
         super().__init__()
    
     def __repr__(self):
-- 
2.43.0


From 12a50e28d07f5a2d01d2d8a6b4a2ec0703b5ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 04/47] fix: Embed groups with lazy or complex generators

Embedding a group whose generators are LinearOperators (S, Z, Cube, ...) raised an
AttributeError, and the imaginary parts of the generators of SU and U were dropped.
---
 emlp/groups.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 0d1d4ef..bc1c065 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -432,11 +432,14 @@ class Embed(Group):
     d: the dimension in which to embed
     slice: a slice object specifying which dimensions G acts on."""
     def __init__(self,G,d,slice):
-        self.lie_algebra = np.zeros((G.lie_algebra.shape[0],d,d))
-        self.discrete_generators = np.zeros((G.discrete_generators.shape[0],d,d))
+        As = [np.asarray(Ai@jnp.eye(G.d)) for Ai in G.lie_algebra]
+        hs = [np.asarray(hi@jnp.eye(G.d)) for hi in G.discrete_generators]
+        dtype = np.result_type(float,*As,*hs) # keep complex generators complex
+        self.lie_algebra = np.zeros((len(As),d,d),dtype)
+        self.discrete_generators = np.zeros((len(hs),d,d),dtype)
         self.discrete_generators += np.eye(d)
-        self.lie_algebra[:,slice,slice] = G.lie_algebra
-        self.discrete_generators[:,slice,slice]  =G.discrete_generators
+        for i,A in enumerate(As): self.lie_algebra[i,slice,slice] = A
+        for i,h in enumerate(hs): self.discrete_generators[i,slice,slice] = h
         self.name = f"{G}_R{d}_{np.arange(d)[slice].tolist()}"
         super().__init__()
    
-- 
2.43.0


From e5b4409bf5f150f083d920f555beee961117ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 05/47] fix: separate the arguments in the repr of a Group

Groups compare and hash by repr: without a separator the arguments (1,23) and (12,3)
gave equal groups, which then shared cached solutions.
---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index bc1c065..75ccd02 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -86,7 +86,7 @@ class Group(object,metaclass=Named):
     def __repr__(self):
         outstr = f"{self.__class__}"
         if self.args:
-            outstr += '('+''.join(repr(arg) for arg in self.args)+')'
+            outstr += '('+','.join(repr(arg) for arg in self.args)+')'
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-- 
2.43.0


From ec8914b56fec484e086dbb26c5508dbc0a2128b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 06/47] fix: determine the is_permutation flag of D(k) with its
 reflection

The flags were computed by C.__init__ before the reflection was added, so D(1) counted as
a permutation group and gated nonlinearities acted on it pointwise.
---
 emlp/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 75ccd02..9651a32 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -173,6 +173,8 @@ class D(C):
     def __init__(self,k):
         super().__init__(k)
         self.discrete_generators = np.concatenate((self.discrete_generators,np.array([[[-1,0],[0,1]]])))
+        self.is_orthogonal = self.is_permutation = None # of C(k), determine again with the reflection
+        Group.__init__(self,k)
 @export
 class Scaling(Group):
     """ The scaling group in n dimensions"""
-- 
2.43.0


From 2c3d1603a39a48a738ca6a42b97260be7b9ff006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 07/47] fix: SO(1), S(1), SL(1) and SU(1)

These groups have no generators: the dimension of their representation was never set, and
SU(1) raised a TypeError as __init__ may not return a value.
---
 emlp/groups.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9651a32..3f6125d 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -22,10 +22,10 @@ class Group(object,metaclass=Named):
     def __init__(self,*args,**kwargs):
         # get the dimension of the base group representation
         if self.d is NotImplemented: 
-            if self.lie_algebra is not NotImplemented and len(self.lie_algebra):
-                self.d= self.lie_algebra[0].shape[-1]
-            if self.discrete_generators is not NotImplemented and len(self.discrete_generators):
-                self.d= self.discrete_generators[0].shape[-1]
+            for generators in (self.lie_algebra,self.discrete_generators):
+                if generators is NotImplemented: continue
+                if len(generators): self.d = generators[0].shape[-1]
+                elif hasattr(generators,'shape'): self.d = generators.shape[-1]
 
         if self.lie_algebra is NotImplemented:
             self.lie_algebra = np.zeros((0,self.d,self.d))
@@ -263,6 +263,7 @@ class S(Group): #The permutation group
     def __init__(self,n):
         # Here we choose n-1 generators consisting of swaps between the first element
         # and every other element
+        self.d = n # there are no generators to infer it from if n==1
         perms = np.arange(n)[None]+np.zeros((n-1,1)).astype(int)
         perms[:,0] = np.arange(1,n)
         perms[np.arange(n-1),np.arange(1,n)[None]]=0
@@ -329,7 +330,6 @@ class U(Group):  # Of dimension n^2
 class SU(Group):  # Of dimension n^2-1
     """ The special unitary group SU(n) in n dimensions (complex)"""
     def __init__(self,n):
-        if n==1: return Trivial(1)
         lie_algebra_real = np.zeros((n**2-1,n,n))
         lie_algebra_imag = np.zeros((n**2-1,n,n))
         k=0
-- 
2.43.0


From 5961cf727b5c20f38725803df90d58fde252643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 08/47] fix: LazyDirectSum without multiplicities, and its
 transpose and invT

The transpose and inverse transpose dropped the multiplicities, and omitting them raised a
TypeError, so that SumRep.rho(g).T and the like failed.
---
 emlp/reps/linear_operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 830ee13..73bf89d 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -137,8 +137,8 @@ class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
         self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
-        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)),
-                      sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)))
+        shape = (sum(Mi.shape[0]*c for Mi,c in zip(self.Ms,self.multiplicities)),
+                      sum(Mi.shape[1]*c for Mi,c in zip(self.Ms,self.multiplicities)))
         super().__init__(None,shape)
         #self.dtype=Ms[0].dtype
         #self.dtype=jnp.dtype('float32')
@@ -149,9 +149,9 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms])
+        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms])
+        return LazyDirectSum([lazify(M).invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 0fc9643b9efc0a73e40a7ccb97aa5387ec3b894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 09/47] fix: LazyKron and LazyKronsum of a single LazyKron or
 LazyKronsum

__new__ returns the single factor, which Python then initializes again if it is of the same
class, making it its own factor (RecursionError).
---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 73bf89d..9569d82 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -33,6 +33,7 @@ class I(LinearOperator):
 class LazyKron(LinearOperator):
 
     def __init__(self,Ms):
+        if len(Ms)==1: return # __new__ has returned Ms[0] itself
         self.Ms = Ms
         shape = product([Mi.shape[0] for Mi in Ms]), product([Mi.shape[1] for Mi in Ms])
         #self.dtype=Ms[0].dtype
@@ -66,6 +67,7 @@ def kronsum(A,B):
 class LazyKronsum(LinearOperator):
     
     def __init__(self,Ms):
+        if len(Ms)==1: return # __new__ has returned Ms[0] itself
         self.Ms = Ms
         shape = product([Mi.shape[0] for Mi in Ms]), product([Mi.shape[1] for Mi in Ms])
         #self.dtype=Ms[0].dtype
-- 
2.43.0


From 9c23163da81de50ce50bdbac570a9211ac7375f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 10/47] fix: define the transpose of Rot90

Its transpose (and any LazyKron containing it) raised NotImplementedError when applied.
---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 9569d82..1a8540b 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -231,5 +231,7 @@ class Rot90(LinearOperator):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
     def _matvec(self,V):
         return jnp.rot90(V.reshape((self.n,self.n,-1)),self.k).reshape(V.shape)
+    def _adjoint(self):
+        return Rot90(self.n,-self.k)
     def invT(self):
         return self
\ No newline at end of file
-- 
2.43.0


From 79f693187eba82124f94ea21de54e7fda334d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 11/47] fix: LazyKron.invT with dense factors

The generators of a product group may have dense factors, so that the dual representations
of e.g. SO13()*S(3) could not be solved for.
---
 emlp/reps/linear_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 1a8540b..6d232e7 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -51,7 +51,7 @@ class LazyKron(LinearOperator):
     def _adjoint(self):
         return LazyKron([Mi.T for Mi in self.Ms])
     def invT(self):
-        return LazyKron([M.invT() for M in self.Ms])
+        return LazyKron([lazify(M).invT() for M in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(jnp.kron,Ms)
-- 
2.43.0


From d4f3b7a654ad7d6122601d92c6637cabc6974713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 12/47] fix: adjoints of complex LinearOperators

_rmatmat, _rmatvec and _adjoint are to implement the conjugate transpose but gave the
transpose, so the equivariant projector QQ^H was wrong for complex bases Q.
---
 emlp/reps/linear_operator_base.py | 4 ++--
 emlp/reps/linear_operators.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 41eab9a..cb151c5 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -727,9 +727,9 @@ class Lazy(LinearOperator):
     def _matvec(self,v):
         return self.A@v
     def _rmatmat(self,V):
-        return self.A.T@V
+        return self.A.conj().T@V
     def _rmatvec(self,v):
-        return self.A.T@v
+        return self.A.conj().T@v
     def to_dense(self):
         return self.A
     def invT(self):
diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 6d232e7..5350e7e 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -49,7 +49,7 @@ class LazyKron(LinearOperator):
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-        return LazyKron([Mi.T for Mi in self.Ms])
+        return LazyKron([lazify(Mi).H for Mi in self.Ms])
     def invT(self):
         return LazyKron([lazify(M).invT() for M in self.Ms])
     def to_dense(self):
@@ -87,7 +87,7 @@ class LazyKronsum(LinearOperator):
         return out.reshape(self.shape[0],ev.shape[-1])
         
     def _adjoint(self):
-        return LazyKronsum([Mi.T for Mi in self.Ms])
+        return LazyKronsum([lazify(Mi).H for Mi in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(kronsum,Ms)
@@ -130,7 +130,7 @@ class ConcatLazy(LinearOperator):
         return jnp.concatenate([M@V for M in self.Ms],axis=0)
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
-        return sum([self.Ms[i].T@Vs[i] for i in range(len(self.Ms))])
+        return sum([lazify(self.Ms[i]).H@Vs[i] for i in range(len(self.Ms))])
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
@@ -151,7 +151,7 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
+        return LazyDirectSum([lazify(Mi).H for Mi in self.Ms],self.multiplicities)
     def invT(self):
         return LazyDirectSum([lazify(M).invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
-- 
2.43.0


From d42633e5925855b13ab5a6917057934ef9594975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 13/47] fix: invT of sums and scalar multiples of
 LinearOperators

The inverse of a sum is not the sum of the inverses, and (1/a)A^T is not the inverse transpose of aA.
---
 emlp/reps/linear_operator_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index cb151c5..26c875a 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -555,8 +555,7 @@ class _SumLinearOperator(LinearOperator):
         return A.H + B.H
 
     def invT(self):
-        A,B = self.args
-        return A.invT() + B.invT()
+        return Lazy(np.linalg.inv(self.to_dense()).T)
 
 class _ProductLinearOperator(LinearOperator):
     def __init__(self, A, B):
@@ -623,7 +622,7 @@ class _ScaledLinearOperator(LinearOperator):
         return A.H * np.conj(alpha)
     def invT(self):
         A, alpha = self.args
-        return (1/alpha)*A.T
+        return (1/alpha)*A.invT()
     def to_dense(self):
         A, alpha = self.args
         return alpha*A.to_dense()
-- 
2.43.0


From 1787c592acd938f44e7de4c0060274acc9490254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 14/47] fix: transpose of ConcatLazy applied to a vector

---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 5350e7e..450715f 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -131,6 +131,8 @@ class ConcatLazy(LinearOperator):
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
         return sum([lazify(self.Ms[i]).H@Vs[i] for i in range(len(self.Ms))])
+    def _rmatvec(self,v):
+        return self._rmatmat(v.reshape(-1,1)).reshape(-1)
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
-- 
2.43.0


From f260e1133f8e50a8ebaa32c7407235b57e604dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 15/47] fix: hidden representations which are not canonically
 ordered sums

EMLP(...,ch=rep) failed for a single rep (ch=V) and for sums in other than canonical order
(ch=V+V**0), both of which the documentation allows.
---
 emlp/nn/objax.py              | 4 ++--
 emlp/reps/product_sum_reps.py | 1 -
 emlp/reps/representation.py   | 6 +++---
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2f92846..78cb521 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -333,12 +333,12 @@ def gate_indices(ch_rep:Rep) -> jnp.ndarray:
     """ Indices for scalars, and also additional scalar gates
         added by gated(sumrep)"""
     channels = ch_rep.size()
-    perm = ch_rep.perm
     indices = np.arange(channels)
 
     if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
-        return indices if ch_rep.is_permutation else np.ones(ch_rep.size())*ch_rep.size()
+        return indices if ch_rep==Scalar or ch_rep.is_permutation else np.full(channels,channels)
 
+    perm = ch_rep.perm
     num_nonscalars = 0
     i=0
     for rep in ch_rep:
diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ceb9296..c0f9264 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -44,7 +44,6 @@ class SumRep(Rep):
         return self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
-        assert self.canonical
         return hash(tuple(self.reps.items()))
 
     @property
diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index e9a7cd8..c96eb10 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -412,11 +412,11 @@ def sparsify_basis(Q,lr=1e-2): #(n,r)
 @export
 def bilinear_weights(out_rep,in_rep):
     #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
-    W_rep,W_perm = (in_rep>>out_rep).canonicalize()
-    # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
+    SumRep = emlp.reps.product_sum_reps.SumRep # (wraps reps which are not sums)
+    W_rep,W_perm = SumRep(in_rep>>out_rep).canonicalize()
     inv_perm = np.argsort(W_perm)
     mat_shape = out_rep.size(),in_rep.size()
-    x_rep=in_rep
+    x_rep = SumRep(in_rep)
     W_multiplicities = W_rep.reps
     x_multiplicities = x_rep.reps
     x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
-- 
2.43.0


From ecc4574c5a3d70e07c07f65316be35d950a9bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 16/47] fix: comparison of a SumRep with a rep which is not a
 sum

raised an AttributeError rather than returning False.
---
 emlp/reps/product_sum_reps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index c0f9264..cb30040 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -41,7 +41,8 @@ class SumRep(Rep):
         return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)
 
     def __eq__(self, other):
-        return self.reps==other.reps and (self.perm==other.perm).all()
+        return isinstance(other,SumRep) and self.reps==other.reps and len(self.perm)==len(other.perm) \
+            and (self.perm==other.perm).all()
 
     def __hash__(self):
         return hash(tuple(self.reps.items()))
-- 
2.43.0


From 66713108ec3633f16f6d9a1e6e267c5e13c2ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 17/47] fix: GroupAugmentation

It applied rho of the representation before instantiating it with the group (and without
making it dense), so --aug=True and default_aug always raised NotImplementedError.
---
 emlp/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/datasets.py b/emlp/datasets.py
index cc01f03..0baeda6 100644
--- a/emlp/datasets.py
+++ b/emlp/datasets.py
@@ -105,11 +105,11 @@ class ParticleInteraction(object):
 class GroupAugmentation(Module):
     def __init__(self,network,rep_in,rep_out,group):
         super().__init__()
-        self.rep_in=rep_in
-        self.rep_out=rep_out
+        self.rep_in=rep_in(group)
+        self.rep_out=rep_out(group)
         self.G=group
-        self.rho_in = jit(vmap(self.rep_in.rho))
-        self.rho_out = jit(vmap(self.rep_out.rho))
+        self.rho_in = jit(vmap(self.rep_in.rho_dense))
+        self.rho_out = jit(vmap(self.rep_out.rho_dense))
         self.model = network
     def __call__(self,x,training=True):
         if training:
-- 
2.43.0


From 516ed5162d715107c665d7a9890d93d68494cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 18/47] fix: gradients of torchified functions which return a
 tuple

The backward pass raised a TypeError.
---
 emlp/nn/pytorch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b41b251..a88f153 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -58,11 +58,13 @@ def torchify_fn(function):
         def forward(ctx,*args):
             if any(ctx.needs_input_grad):
                 y,ctx.vjp_fn = vjp(*to_jax(args))#jax.vjp(function,*to_jax(args))
+                ctx.tuple_output = isinstance(y,tuple)
                 return to_pytorch(y)
             return to_pytorch(function(*to_jax(args)))
         @staticmethod
         def backward(ctx,*grad_outputs):
-            return to_pytorch(ctx.vjp_fn(*to_jax(grad_outputs)))
+            grads = to_jax(grad_outputs) # (vjp_fn takes the cotangent of a tuple as a single argument)
+            return to_pytorch(ctx.vjp_fn(grads if ctx.tuple_output else grads[0]))
     return torched_fn.apply #TORCHED #Roasted
 
 
-- 
2.43.0


From ceddf17283968b0043768c6cbf81eee90a9e6341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 19/47] fix: reload cached Hamiltonian datasets

torch.load no longer unpickles numpy arrays by default (torch>=2.6), so creating a dataset for the second time failed.
---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index be84aeb..61df601 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -91,7 +91,7 @@ class HamiltonianDataset(Dataset):
         filename = os.path.join(root_dir, f"trajectories_{n_systems}_{chunk_len}_{dt}_{integration_time}.pz")
 
         if os.path.exists(filename) and not regen:
-            Zs = torch.load(filename)
+            Zs = torch.load(filename,weights_only=False) # an array, not weights
         else:
             zs = self.generate_trajectory_data(n_systems, dt, integration_time)
             Zs = np.asarray(self.chunk_training_data(zs, chunk_len))
-- 
2.43.0


From 83df040e8a40b112326557bda9c40b9e00b21d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 20/47] fix: SwapMatrix

jax.ops.index_update was removed from jax.
---
 emlp/reps/linear_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 450715f..1b3fe54 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -214,8 +214,8 @@ class SwapMatrix(LinearOperator):
         shape = (n,n)
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
-        V = jax.ops.index_update(V, jax.ops.index[self.swaprows], V[self.swaprows[::-1]])
-        return V
+        rows = np.asarray(self.swaprows)
+        return V.at[rows].set(V[rows[::-1]])
     def _matvec(self,V):
         return self._matmat(V)
     def _adjoint(self):
-- 
2.43.0


From 2fbdcf53f6f4ed6d877f6f5b23fcda722a537f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 21/47] fix: equivariant bases when the SVD does not converge

LAPACK's divide and conquer SVD fails to converge for some constraint matrices (which ones
depends on the CPU; on one with AVX512 that of T(4)(Cube()) does), which jax reports as NaNs.
The basis was then silently filled with NaNs. Fall back on the QR algorithm.
---
 emlp/reps/representation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index c96eb10..31bd250 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -2,6 +2,7 @@ import numpy as np
 import jax
 import jax.numpy as jnp
 from jax import jit, device_put,vmap
+from scipy.linalg import svd
 import optax
 from sklearn.cluster import KMeans
 from tqdm.auto import tqdm
@@ -299,6 +300,8 @@ def T(p,q=0,G=None):
 def orthogonal_complement(proj):
     """ Computes the orthogonal complement to a given matrix proj"""
     U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if jnp.isnan(S).any(): # LAPACK's gesdd, which jax uses on CPU, has failed to converge
+        U,S,VH = map(device_put,svd(np.asarray(proj),lapack_driver='gesvd'))
     rank = (S>1e-5).sum()
     return VH[rank:].conj().T
 
-- 
2.43.0


From d7bf7d2260ccbe0fa2855d2e4afe0976ba84d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 22/47] fix: duals of one dimensional reps with the default
 drho

LazyJVP defined the adjoint only for matrices, but a product with an (n,1) array
is computed as a matrix vector product.
---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 1b3fe54..52f104c 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -114,6 +114,8 @@ class LazyJVP(LinearOperator):
         return self.vjp(v)
     def _rmatmat(self,v):
         return self.vjp_T(v)
+    def _rmatvec(self,v):
+        return self.vjp_T(v)
     
 
 class ConcatLazy(LinearOperator):
-- 
2.43.0


From 4fe74d178dc2c0e76b9a14831450addb4a0bb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 23/47] fix: default drho with lazy or complex generators

The Lie algebra of a product group consists of LinearOperators (and that of U(n) is
complex), which jax.jvp does not accept as tangents of the real identity.
---
 emlp/reps/representation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 31bd250..7df42bc 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -40,7 +40,8 @@ class Rep(object):
         
     def drho(self,A): 
         """ Lie Algebra representation of the matrix A of shape (d,d)"""
-        In = jnp.eye(A.shape[0])
+        A = densify(A) # (the generators of a group can be LinearOperators)
+        In = jnp.eye(A.shape[0],dtype=jnp.result_type(A,float))
         return LazyJVP(self.rho,In,A)
 
     def __call__(self,G):
-- 
2.43.0


From 4834ec2a35f9d021bf1ee53365b377d9bcf7a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 24/47] fix: adjoint of complex LazyJVPs

_rmatvec and _rmatmat are to multiply with the conjugate transpose.
---
 emlp/reps/linear_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 52f104c..bd67767 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -106,7 +106,7 @@ class LazyJVP(LinearOperator):
     def __init__(self,operator_fn,X,TX):
         self.shape = operator_fn(X).shape
         self.vjp = lambda v: jax.jvp(lambda x: operator_fn(x)@v,[X],[TX])[1]
-        self.vjp_T = lambda v: jax.jvp(lambda x: operator_fn(x).T@v,[X],[TX])[1]
+        self.vjp_T = lambda v: jax.jvp(lambda x: operator_fn(x).conj().T@v,[X],[TX])[1]
         self.dtype=jnp.dtype('float32')
     def _matmat(self,v):
         return self.vjp(v)
-- 
2.43.0


From 025aacaed7808bed2d3322062831477e47d3823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 25/47] fix: direct sums of complex numpy arrays

LazyDirectSum cast them to float32, so rho of a sum dropped the imaginary part of a
group element given as a numpy array.
---
 emlp/reps/linear_operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index bd67767..5894818 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -141,7 +141,8 @@ class ConcatLazy(LinearOperator):
     
 class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
-        self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
+        self.Ms = [jax.device_put(M.astype(np.complex64 if np.iscomplexobj(M) else np.float32))
+                        if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
         shape = (sum(Mi.shape[0]*c for Mi,c in zip(self.Ms,self.multiplicities)),
                       sum(Mi.shape[1]*c for Mi,c in zip(self.Ms,self.multiplicities)))
-- 
2.43.0


From 63c8316f957892422276dfb8f61c5317f66865c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 26/47] fix: duals of user defined reps which are not
 orthogonal

---
 emlp/reps/representation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 7df42bc..ff51126 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -33,6 +33,7 @@ class Rep(object):
         At minimum, new representations need to implement ``rho``, ``__str__``."""
         
     is_permutation=False
+    is_orthogonal=None
 
     def rho(self,M):
         """ Group representation of the matrix M of shape (d,d)"""
@@ -183,8 +184,18 @@ class Rep(object):
     @property
     def T(self):
         """ Dual representation V*, rho*, drho*."""
-        if hasattr(self,"G") and (self.G is not None) and self.G.is_orthogonal: return self
+        if hasattr(self,"G") and (self.G is not None) and self.G.is_orthogonal:
+            if self.is_orthogonal is None: self.is_orthogonal = self._check_orthogonal()
+            if self.is_orthogonal: return self
         return Dual(self)
+    def _check_orthogonal(self):
+        """ Whether rho is orthogonal, determined from the generators of the group.
+            (rho(M) need not be, even if M is) """
+        n = self.size()
+        hs = [self.rho_dense(h) for h in self.G.discrete_generators]
+        As = [self.drho_dense(A) for A in self.G.lie_algebra]
+        return all(jnp.allclose(h.T@h,jnp.eye(n),atol=1e-4) for h in hs) \
+            and all(jnp.allclose(A.T,-A,atol=1e-4) for A in As)
 
 
 @dispatch
@@ -239,7 +250,7 @@ class Base(Rep):
     """ Base representation V of a group."""
     def __init__(self,G=None):
         self.G=G
-        if G is not None: self.is_permutation = G.is_permutation
+        if G is not None: self.is_permutation,self.is_orthogonal = G.is_permutation,G.is_orthogonal
     def __call__(self,G):
         return self.__class__(G)
     def rho(self,M):
-- 
2.43.0


From f2d7b4f7207e764c911f05e559d646aebd45049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 27/47] fix: rank found by the iterative solver when the
 initial guess is tight

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ff51126..05f6ece 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -323,7 +323,7 @@ def krylov_constraint_solve(C,tol=1e-5):
     r = 5
     if C.shape[0]*r*2>2e9: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
     found_rank=5
-    while found_rank==r:
+    while found_rank>r-3: # (the random initialization can be nearly rank deficient if r is tight)
         r *= 2 # Iterative doubling of rank until large enough to include the full solution space
         if C.shape[0]*r>2e9:
             logging.error(f"Hit memory limits, switching to sample equivariant subspace of size {found_rank}")
-- 
2.43.0


From e477a40ab209b73dd1535668b01795eb49f47380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 28/47] fix: iterative solver when everything is invariant

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 05f6ece..b375357 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -380,7 +380,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     # final_L
     final_L = loss_and_grad(Q)[0]
     if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
-    scutoff = (S[rank] if r>rank else 0)
+    scutoff = (S[rank] if len(S)>rank else 0)
     assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
         above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
     #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-- 
2.43.0


From ab3a82e36336e7e138194951d2bce265a01a98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 29/47] fix: iterative solver for complex constraints

---
 emlp/reps/representation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index b375357..079ffab 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -338,6 +338,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
         objective |CQ|^2, which provably converges at an exponential rate."""
     W = np.random.randn(C.shape[-1],r)/np.sqrt(C.shape[-1])# if W0 is None else W0
     W = device_put(W)
+    if jnp.iscomplexobj(C@W): W = W+1j*device_put(np.random.randn(*W.shape)/np.sqrt(C.shape[-1])) # solutions are complex
     opt_init,opt_update = optax.sgd(lr,.9)
     opt_state = opt_init(W)  # init stats
 
@@ -354,7 +355,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     for i in range(20000):
         
         lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad, opt_state, W)
+        updates, opt_state = opt_update(grad.conj(), opt_state, W)
         W = optax.apply_updates(W, updates)
         # update progress bar
         progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
-- 
2.43.0


From 66ae6e872ca3d56dcefc1033f30e9177c2b149bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 30/47] fix: convergence of the iterative solver

---
 emlp/reps/representation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 079ffab..dfef5d5 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -355,8 +355,6 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     for i in range(20000):
         
         lossval, grad = loss_and_grad(W)
-        updates, opt_state = opt_update(grad.conj(), opt_state, W)
-        W = optax.apply_updates(W, updates)
         # update progress bar
         progress = max(100*np.log(lossval/lstart)/np.log(tol**2/lstart)-prog_val,0)
         progress = min(100-prog_val,progress)
@@ -371,6 +369,8 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
             logging.warning(f"Constraint solving diverged, trying lower learning rate {lr/3:.2e}")
             if lr < 1e-4: raise ConvergenceError(f"Failed to converge even with smaller learning rate {lr:.2e}")
             return krylov_constraint_solve_upto_r(C,r,tol,lr=lr/3)
+        updates, opt_state = opt_update(grad.conj(), opt_state, W) # (not once W has converged)
+        W = optax.apply_updates(W, updates)
     else: raise ConvergenceError("Failed to converge.")
     # Orthogonalize solution at the end
     U,S,VT = np.linalg.svd(np.array(W),full_matrices=False) 
-- 
2.43.0


From 5e1dc47db55b37c87bcffa78dd9553c6cc9a4885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 31/47] fix: products of groups without generators

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 3f6125d..e12916b 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -469,6 +469,7 @@ class DirectProduct(Group):
         I1,I2 = I(G1.d),I(G2.d)
         self.lie_algebra = [LazyKronsum([A1,0*I2]) for A1 in G1.lie_algebra]+[LazyKronsum([0*I1,A2]) for A2 in G2.lie_algebra]
         self.discrete_generators = [LazyKron([M1,I2]) for M1 in G1.discrete_generators]+[LazyKron([I1,M2]) for M2 in G2.discrete_generators]
+        self.d = G1.d*G2.d # there are no generators to infer it from if neither has any
         self.names = (repr(G1),repr(G2))
         super().__init__()
 
-- 
2.43.0


From cd1ee33e14290dc7e1454821ec7fb1d7ef2133df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 32/47] fix: RubiksCube

The full rotations of the cube by which the quarter turns of the other faces are
formed from the one of U moved the faces without rotating the stickers within them,
so that the turns were not those of a cube and generated a group of order (24!)^2/2
rather than 43252003274489856000.
---
 emlp/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index e12916b..9e96633 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -395,11 +395,15 @@ class RubiksCube(Group): #3x3 rubiks cube
         RotFront =pad(np.arange(48))# rotate full cube so that Left face becomes Up, Up becomes Right, Right becomes Down, Down becomes Left
         URDL = np.array([0,2,5,4])
         RotFront[URDL,:] = RotFront[np.roll(URDL,1),:]
+        for face,k in [(0,-1),(2,-1),(5,-1),(4,-1),(1,-1),(3,1)]: # the stickers rotate within their faces too
+            RotFront[face] = np.rot90(RotFront[face].reshape(3,3),k).reshape(9)
         RotFront = unpad(RotFront)
         RotBack = np.argsort(RotFront)
         RotLeft = pad(np.arange(48))
         UFDB = np.array([0,1,5,3])
         RotLeft[UFDB,:] = RotLeft[np.roll(UFDB,1),:]
+        for face,k in [(4,-1),(2,1),(3,2),(0,2)]:
+            RotLeft[face] = np.rot90(RotLeft[face].reshape(3,3),k).reshape(9)
         RotLeft = unpad(RotLeft)
         RotRight = np.argsort(RotLeft)
 
-- 
2.43.0


From e0aeb205331827c9b546f4904912674f769e097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 33/47] fix: SwapMatrix applied to numpy arrays

---
 emlp/reps/linear_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 5894818..ca58453 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -218,7 +218,7 @@ class SwapMatrix(LinearOperator):
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
         rows = np.asarray(self.swaprows)
-        return V.at[rows].set(V[rows[::-1]])
+        return jnp.asarray(V).at[rows].set(V[rows[::-1]])
     def _matvec(self,V):
         return self._matmat(V)
     def _adjoint(self):
-- 
2.43.0


From b4123994454d158cccb58e65e8eefaab61781064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 34/47] fix: adjoint of a LinearOperator scaled by a numpy
 scalar

jax.numpy.conj turned the scalar into an array, by which operators cannot be multiplied.
---
 emlp/reps/linear_operator_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 26c875a..64658a6 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -619,7 +619,7 @@ class _ScaledLinearOperator(LinearOperator):
 
     def _adjoint(self):
         A, alpha = self.args
-        return A.H * np.conj(alpha)
+        return A.H * alpha.conjugate()
     def invT(self):
         A, alpha = self.args
         return (1/alpha)*A.invT()
-- 
2.43.0


From f8adc62f61b872ec5764d0fca78a391c4b71de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 35/47] fix: products of reps of different groups of which one
 has no invariants

The basis of such a product is a LazyKron with a factor without columns, which could
not be applied (e.g. when it is part of a sum).
---
 emlp/reps/linear_operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index ca58453..47bf47c 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -42,10 +42,10 @@ class LazyKron(LinearOperator):
     def _matvec(self,v):
         return self._matmat(v).reshape(-1)
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
-        for i,M in enumerate(self.Ms):
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],v.shape[1] if len(v.shape)>1 else 1)
+        for i,M in enumerate(self.Ms): # (-1 would be ambiguous if one of the dimensions is 0)
             ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product(ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-- 
2.43.0


From 545ef7bb164a29e0c9937f563717678f99e348aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 36/47] fix: copying LazyKrons and LazyKronsums

---
 emlp/reps/linear_operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 47bf47c..03e98a0 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -58,6 +58,8 @@ class LazyKron(LinearOperator):
     def __new__(cls,Ms):
         if len(Ms)==1: return Ms[0]
         return super().__new__(cls)
+    def __getnewargs__(self): # (for copy and pickle)
+        return (self.Ms,)
 
 #@jit
 def kronsum(A,B):
@@ -94,6 +96,8 @@ class LazyKronsum(LinearOperator):
     def __new__(cls,Ms):
         if len(Ms)==1: return Ms[0]
         return super().__new__(cls)
+    def __getnewargs__(self): # (for copy and pickle)
+        return (self.Ms,)
 ## could also be implemented as follows, but the fusing the sum into a single linearOperator is faster
 # def lazy_kronsum(Ms):
 #     n = len(Ms)
-- 
2.43.0


From 868ea89682c388f16a3a5b213a5b09f4053350be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 37/47] fix: torchified functions of pytrees and of arguments
 without gradients

---
 emlp/nn/pytorch.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index a88f153..b28ecc0 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -55,17 +55,26 @@ def torchify_fn(function):
     vjp = jit(lambda *args: jax.vjp(function,*args))
     class torched_fn(Function):
         @staticmethod
-        def forward(ctx,*args):
+        def forward(ctx,trees,*flat_args): # (a Function tracks only tensors, not those inside of pytrees)
+            args = to_jax(tree_unflatten(trees['args'],flat_args))
             if any(ctx.needs_input_grad):
-                y,ctx.vjp_fn = vjp(*to_jax(args))#jax.vjp(function,*to_jax(args))
-                ctx.tuple_output = isinstance(y,tuple)
-                return to_pytorch(y)
-            return to_pytorch(function(*to_jax(args)))
+                y,ctx.vjp_fn = vjp(*args)#jax.vjp(function,*to_jax(args))
+            else:
+                y = function(*args)
+            flat_y,trees['y'] = tree_flatten(to_pytorch(y))
+            ctx.y_tree = trees['y']
+            return tuple(flat_y)
         @staticmethod
         def backward(ctx,*grad_outputs):
-            grads = to_jax(grad_outputs) # (vjp_fn takes the cotangent of a tuple as a single argument)
-            return to_pytorch(ctx.vjp_fn(grads if ctx.tuple_output else grads[0]))
-    return torched_fn.apply #TORCHED #Roasted
+            grads = ctx.vjp_fn(tree_unflatten(ctx.y_tree,to_jax(grad_outputs)))
+            return (None,*[jax2torch(g) if needed else None for g,needed in
+                           zip(tree_flatten(grads)[0],ctx.needs_input_grad[1:])])
+    def torchified(*args):
+        flat_args,args_tree = tree_flatten(args)
+        trees = {'args':args_tree}
+        flat_y = torched_fn.apply(trees,*flat_args)
+        return tree_unflatten(trees['y'],flat_y)
+    return torchified #TORCHED #Roasted
 
 
 @export
-- 
2.43.0


From 19fc1dfb74d87929ba0bf7c13629ac682b212bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 38/47] fix: complex gradients of torchified functions

---
 emlp/nn/pytorch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b28ecc0..e86b49b 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -20,7 +20,7 @@ from emlp.nn import gated,gate_indices,uniform_rep
 
 def torch2jax(arr):
     if isinstance(arr,torch.Tensor):
-        return jnp.asarray(arr.cpu().data.numpy())
+        return jnp.asarray(arr.cpu().data.resolve_conj().resolve_neg().numpy())
     else:
         return arr
 
@@ -66,8 +66,9 @@ def torchify_fn(function):
             return tuple(flat_y)
         @staticmethod
         def backward(ctx,*grad_outputs):
-            grads = ctx.vjp_fn(tree_unflatten(ctx.y_tree,to_jax(grad_outputs)))
-            return (None,*[jax2torch(g) if needed else None for g,needed in
+            grad_outputs = [jnp.conj(g) for g in to_jax(grad_outputs)] # (gradients of jax are conjugate to those of torch)
+            grads = ctx.vjp_fn(tree_unflatten(ctx.y_tree,grad_outputs))
+            return (None,*[jax2torch(jnp.conj(g)) if needed else None for g,needed in
                            zip(tree_flatten(grads)[0],ctx.needs_input_grad[1:])])
     def torchified(*args):
         flat_args,args_tree = tree_flatten(args)
-- 
2.43.0


From 0a1af4f03945bddaf45486e7965d1c41c5ab4600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 39/47] fix: samples of groups with complex discrete generators

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e96633..71e057d 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -104,7 +104,7 @@ class Group(object,metaclass=Named):
 
 @jit
 def matrix_power_simple(M,n):
-    out = jnp.eye(M.shape[-1])
+    out = jnp.eye(M.shape[-1],dtype=jnp.result_type(M,float))
     body = lambda Mn: jax.lax.fori_loop(0,Mn[1],lambda i,g: Mn[0]@g,out)
     out = jax.lax.cond(n<0,(jnp.linalg.inv(M),-n),body,(M,n),body)
     return out
-- 
2.43.0


From 05b85835979b547812f9ef3acd45d31898ad33d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 40/47] fix: products of reps of different groups in other
 orders of factors

---
 emlp/reps/product_sum_reps.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index cb30040..9d9f0f0 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -360,9 +360,8 @@ class DirectProduct(ProductRep):
             group_dict = defaultdict(lambda: 1)
             for rep,c in reps.items():
                 group_dict[rep.G]=group_dict[rep.G]*rep**c
-            sub_products = {rep:1 for G,rep in group_dict.items()}
-            self.reps = counter = sub_products
-            self.reps,perm2 = self.compute_canonical([counter],[np.arange(self.size())])
+            sub_products,sub_perms = zip(*[rep.canonicalize() for rep in group_dict.values()])
+            self.reps,perm2 = self.compute_canonical([{rep:1} for rep in sub_products],sub_perms)
             self.perm = extra_perm[perm[perm2]] if extra_perm is not None else perm[perm2]
         self.invperm = np.argsort(self.perm)
         self.canonical=(self.perm==self.invperm).all()
-- 
2.43.0


From 0adecd515e86480c74b9d9a983c1d92da5ec0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 41/47] fix: default drho with integer generators

---
 emlp/reps/representation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index dfef5d5..b7e4771 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -42,8 +42,9 @@ class Rep(object):
     def drho(self,A): 
         """ Lie Algebra representation of the matrix A of shape (d,d)"""
         A = densify(A) # (the generators of a group can be LinearOperators)
-        In = jnp.eye(A.shape[0],dtype=jnp.result_type(A,float))
-        return LazyJVP(self.rho,In,A)
+        dtype = jnp.result_type(A,float) # (or be integers)
+        In = jnp.eye(A.shape[0],dtype=dtype)
+        return LazyJVP(self.rho,In,A.astype(dtype))
 
     def __call__(self,G):
         """ Instantiate (non concrete) representation with a given symmetry group"""
-- 
2.43.0


From a7a1bc69ecee3e1b4ac5ac1ad7667835ee9fa291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 42/47] fix: PyTorch networks in PyTorch's Standardize

---
 emlp/nn/pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index e86b49b..779cd0b 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -175,7 +175,7 @@ class EMLP(nn.Module):
             *[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],
             Linear(reps[-1],self.rep_out)
         )
-    def forward(self,x):
+    def forward(self,x,training=True):
         return self.network(x)
 
 class Swish(nn.Module):
@@ -201,7 +201,7 @@ class MLP(nn.Module):
             nn.Linear(chs[-1],cout)
         )
 
-    def forward(self,x):
+    def forward(self,x,training=True):
         y = self.net(x)
         return y
 
-- 
2.43.0


From 9f1a9f51453732dc46eb20b5d5ed93e1a4db6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 43/47] fix: time points of the chunks of Hamiltonian datasets

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index 61df601..154d459 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -99,7 +99,7 @@ class HamiltonianDataset(Dataset):
             torch.save(Zs, filename)
         
         self.Zs = Zs
-        self.T = np.asarray(jnp.arange(0, chunk_len*dt, dt))
+        self.T = np.asarray(dt*jnp.arange(chunk_len))
         self.T_long = np.asarray(jnp.arange(0,integration_time,dt))
 
     def __len__(self):
-- 
2.43.0


From 2189e8aabc760c6c108c13b54ac3021a2f28fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 44/47] fix: chunk lengths which do not divide the trajectory
 length

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index 154d459..4926790 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -128,7 +128,7 @@ class HamiltonianDataset(Dataset):
         batch_size, traj_len, *z_dim = zs.shape
         n_chunks = traj_len // chunk_len
         chunk_idx = np.random.randint(0, n_chunks, (batch_size,))
-        chunked_zs = np.stack(np.split(zs,n_chunks, axis=1))
+        chunked_zs = np.stack(np.split(zs[:,:n_chunks*chunk_len],n_chunks, axis=1))
         chosen_zs = chunked_zs[chunk_idx, np.arange(batch_size)]
         return chosen_zs
 
-- 
2.43.0


From 54bed9ca67ff5e53a14e491e0eb94b2fd089505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 45/47] fix: averages of metrics over loaders with a smaller
 last minibatch

---
 experiments/trainer/trainer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/experiments/trainer/trainer.py b/experiments/trainer/trainer.py
index 180b7d6..022d8ca 100644
--- a/experiments/trainer/trainer.py
+++ b/experiments/trainer/trainer.py
@@ -96,8 +96,7 @@ class Trainer(object,metaclass=Named):
     def evalAverageMetrics(self,loader,metrics):
         num_total, loss_totals = 0, 0
         for minibatch in loader:
-            try: mb_size = loader.batch_size
-            except AttributeError: mb_size=1
+            mb_size = len(jax.tree_util.tree_leaves(minibatch)[0]) # (the last minibatch may be smaller)
             loss_totals += mb_size*metrics(minibatch)
             num_total += mb_size
         if num_total==0: raise KeyError("dataloader is empty")
-- 
2.43.0


From be82f3c6e8faa1ed057bff84e5a52cbbee02d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:19 +0000
Subject: [PATCH 46/47] fix: products which are not in canonical order can be
 hashed (gate_indices of a bare product failed)

---
 emlp/reps/product_sum_reps.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 9d9f0f0..5ab298b 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -277,7 +277,6 @@ class ProductRep(Rep):
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
     def __hash__(self):
-        assert self.canonical, f"Not canonical {repr(self)}? perm {self.perm}"
         return hash(tuple(self.reps.items()))
     def __eq__(self, other): #TODO: worry about non canonical?
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
-- 
2.43.0


From 7db3a46bca85429b4d42aa95ec95ef9b152ca7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:19 +0000
Subject: [PATCH 47/47] fix: training neural ODEs leaked tracers of the first
 step into later integrations

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index 4926790..4f9d496 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -65,7 +65,7 @@ def BOdeFlow(dynamics,z0,T,tol=1e-4):
     """ Batched integration of ODE dynamics into rollout trajectories.
         Given dynamics (state_dim->state_dim) and z0 of shape (bs,state_dim)
         and T of shape (t,) outputs trajectories (bs,t,state_dim) """
-    dynamics = jit(vmap(jit(dynamics),(0,None)))
+    dynamics = jit(vmap(jit(partial(dynamics)),(0,None))) # (a new function, jit may keep what a network was traced with)
     return odeint(dynamics, z0, T, rtol=tol).transpose((1,0,2))
 
 class HamiltonianDataset(Dataset):
-- 
2.43.0

