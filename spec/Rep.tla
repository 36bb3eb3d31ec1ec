-------------------------------- MODULE Rep --------------------------------
(* Representation expressions and their meaning.                             *)
(*                                                                           *)
(* An expression is a tree                                                   *)
(*   [k |-> "A", b, n, g, d]  base representation b (with integer parameter  *)
(*                            n) of group g (g = NoG: not instantiated yet), *)
(*                            d = 1 when dualised                            *)
(*   [k |-> "S"]              the one dimensional scalar representation      *)
(*   [k |-> "+", c]           direct sum of the sequence c                   *)
(*   [k |-> "*", c]           tensor product of the sequence c               *)
(* GT maps a group name to [d, orth, perm]: its dimension and whether it is  *)
(* a group of orthogonal / of permutation matrices.                          *)
EXTENDS Num
CONSTANT GT

NoG == ""
AtomT(b,n,g,d) == [k |-> "A", b |-> b, n |-> n, g |-> g, d |-> d]
Sca == [k |-> "S"]
Orth(g) == g # NoG /\ GT[g].orth = 1

RECURSIVE Conc(_)
Conc(t) == CASE t.k = "S" -> TRUE
             [] t.k = "A" -> t.g # NoG
             [] OTHER -> \A i \in DOMAIN t.c : Conc(t.c[i])
RECURSIVE GroupsOf(_)
GroupsOf(t) == CASE t.k = "S" -> {}
                 [] t.k = "A" -> {t.g}
                 [] OTHER -> UNION {GroupsOf(t.c[i]) : i \in DOMAIN t.c}
RECURSIVE AtomsOf(_)
AtomsOf(t) == CASE t.k = "S" -> {}
                [] t.k = "A" -> {t}
                [] OTHER -> UNION {AtomsOf(t.c[i]) : i \in DOMAIN t.c}

AtomSize(t) == CASE t.b = "V" -> GT[t.g].d
                 [] t.b = "det" -> 1
                 [] t.b = "psi" -> GT[t.g].d
                 [] t.b = "Ad" -> GT[t.g].d * GT[t.g].d
                 [] t.b = "triv" -> t.n
RECURSIVE Size(_)
Size(t) == CASE t.k = "S" -> 1
             [] t.k = "A" -> AtomSize(t)
             [] t.k = "+" -> FoldLeft(LAMBDA a,x : a + Size(x), 0, t.c)
             [] t.k = "*" -> FoldLeft(LAMBDA a,x : a * Size(x), 1, t.c)
\* upper bound for trees that are not instantiated, every open atom counted as d-dimensional
RECURSIVE SizeAs(_,_)
SizeAs(t,g) == CASE t.k = "S" -> 1
             [] t.k = "A" -> IF t.g = NoG THEN AtomSize([t EXCEPT !.g = g]) ELSE AtomSize(t)
             [] t.k = "+" -> FoldLeft(LAMBDA a,x : a + SizeAs(x,g), 0, t.c)
             [] t.k = "*" -> FoldLeft(LAMBDA a,x : a * SizeAs(x,g), 1, t.c)
RECURSIVE Leaves(_)
Leaves(t) == IF t.k \in {"S","A"} THEN 1 ELSE FoldLeft(LAMBDA a,x : a + Leaves(x), 0, t.c)

-----------------------------------------------------------------------------
(* The public operations on expressions *)
Plus(a,b) == [k |-> "+", c |-> <<a,b>>]
Times(a,b) == CASE a.k = "S" -> b
                [] b.k = "S" -> a
                [] OTHER -> [k |-> "*", c |-> <<a,b>>]
NTimes(n,a) == IF n = 1 THEN a ELSE [k |-> "+", c |-> [i \in 1..n |-> a]]
PowerT(a,n) == IF n = 0 THEN Sca ELSE IF n = 1 THEN a ELSE
               IF a.k = "S" THEN Sca ELSE [k |-> "*", c |-> [i \in 1..n |-> a]]
RECURSIVE DualT(_)
DualT(t) == CASE t.k = "S" -> t
              [] t.k = "A" -> IF Orth(t.g) THEN t ELSE [t EXCEPT !.d = 1 - @]
              [] OTHER -> [t EXCEPT !.c = [i \in DOMAIN t.c |-> DualT(t.c[i])]]
RECURSIVE InstT(_,_)
InstT(t,g) == CASE t.k = "S" -> t
              [] t.k = "A" -> [t EXCEPT !.g = g, !.d = IF Orth(g) THEN 0 ELSE @]
              [] OTHER -> [t EXCEPT !.c = [i \in DOMAIN t.c |-> InstT(t.c[i],g)]]
\* linear maps a -> b
MapsT(a,b) == Times(b,DualT(a))
TensorT(p,q,g) == InstT(Times(PowerT(AtomT("V",1,NoG,0),p),PowerT(AtomT("V",1,NoG,1),q)),g)

-----------------------------------------------------------------------------
(* Meaning.  ms maps a group name to one element of it:                      *)
(*   m  its matrix, w the inverse transpose, h an element of its Lie algebra *)
SpZero(n) == [i \in 1..n |-> <<>>]
Scal1(x) == << IF x % P = 0 THEN <<>> ELSE << <<1, x % P>> >> >>
AtomRho(t,e) ==
  LET m == IF t.d = 1 THEN e.w ELSE e.m
      w == IF t.d = 1 THEN e.m ELSE e.w
  IN CASE t.b = "V" -> m
       [] t.b = "det" -> Scal1(PowMod(DetSp(m), t.n))
       [] t.b = "psi" -> SpPow(m, t.n)
       [] t.b = "Ad" -> SpKron(m,w)
       [] t.b = "triv" -> SpId(t.n)
AtomDrho(t,e) ==
  LET n == Len(e.h)
      mt == SpNeg(SpT(e.h,n))
      h == IF t.d = 1 THEN mt ELSE e.h
      g == IF t.d = 1 THEN e.h ELSE mt
  IN CASE t.b = "V" -> h
       [] t.b = "det" -> Scal1(t.n * TraceSp(h))
       [] t.b = "psi" -> SpScale(t.n,h)
       [] t.b = "Ad" -> SpKronSum(h,g)
       [] t.b = "triv" -> SpZero(t.n)
RECURSIVE RhoT(_,_)
RhoT(t,ms) == CASE t.k = "S" -> SpId(1)
                [] t.k = "A" -> AtomRho(t,ms[t.g])
                [] t.k = "+" -> FoldLeft(LAMBDA a,x : SpSum(a,RhoT(x,ms)), RhoT(t.c[1],ms), Tail(t.c))
                [] t.k = "*" -> FoldLeft(LAMBDA a,x : SpKron(a,RhoT(x,ms)), RhoT(t.c[1],ms), Tail(t.c))
RECURSIVE DrhoT(_,_)
DrhoT(t,ms) == CASE t.k = "S" -> SpZero(1)
                [] t.k = "A" -> AtomDrho(t,ms[t.g])
                [] t.k = "+" -> FoldLeft(LAMBDA a,x : SpSum(a,DrhoT(x,ms)), DrhoT(t.c[1],ms), Tail(t.c))
                [] t.k = "*" -> FoldLeft(LAMBDA a,x : SpKronSum(a,DrhoT(x,ms)), DrhoT(t.c[1],ms), Tail(t.c))

-----------------------------------------------------------------------------
(* The tensors an expression is made of, forgetting the written order: a     *)
(* polynomial, i.e. a bag of monomials, a monomial being a bag of atoms.     *)
BagAdd(A,B) == [x \in DOMAIN A \cup DOMAIN B |->
                  (IF x \in DOMAIN A THEN A[x] ELSE 0) + (IF x \in DOMAIN B THEN B[x] ELSE 0)]
BagOne(x) == x :> 1
BagEmpty == [x \in {} |-> 0]
PolyMul(A,B) ==
   LET prs == (DOMAIN A) \X (DOMAIN B)
       ms == {BagAdd(p[1],p[2]) : p \in prs}
   IN [m \in ms |-> FoldSet(LAMBDA p,acc : acc + A[p[1]]*B[p[2]], 0, {p \in prs : BagAdd(p[1],p[2]) = m})]
RECURSIVE Poly(_)
Poly(t) == CASE t.k = "S" -> BagOne(BagEmpty)
             [] t.k = "A" -> BagOne(BagOne(t))
             [] t.k = "+" -> FoldLeft(LAMBDA a,x : BagAdd(a,Poly(x)), Poly(t.c[1]), Tail(t.c))
             [] t.k = "*" -> FoldLeft(LAMBDA a,x : PolyMul(a,Poly(x)), Poly(t.c[1]), Tail(t.c))
\* sums are their own kind of object: an expression denotes a sum object iff a sum occurs in it
RECURSIVE HasSum(_)
HasSum(t) == CASE t.k \in {"S","A"} -> FALSE
               [] t.k = "+" -> TRUE
               [] OTHER -> \E i \in DOMAIN t.c : HasSum(t.c[i])
\* some tensor of the expression belongs to more than one group
MixedTensor(t) == \E m \in DOMAIN Poly(t) : Cardinality({a.g : a \in DOMAIN m}) > 1
=============================================================================
