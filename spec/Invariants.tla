---------------------------- MODULE Invariants ----------------------------
(* The space of invariant vectors of a representation expression: its exact  *)
(* dimension, and numeric tests that recorded vectors belong to it.          *)
EXTENDS Rep
CONSTANT Cat

-----------------------------------------------------------------------------
(* exact dimension, by elimination modulo P, one tensor and one group at a time *)
\* generators of group g as elements of Rep's meaning
GrpElem(h,d) == [m |-> h.p, w |-> h.p, h |-> SpZero(d)]     \* discrete generators are orthogonal matrices
LieElem(a,d) == [m |-> SpId(d), w |-> SpId(d), h |-> a.p]
MonoTreeOf(m) == LET s == FlattenSeq([k \in 1..Cardinality(DOMAIN m) |->
                       LET a == SetToSeq(DOMAIN m)[k] IN [c \in 1..m[a] |-> a]])
                 IN IF Len(s) = 1 THEN s[1] ELSE [k |-> "*", c |-> s]
PartOf(m,g) == [a \in {a \in DOMAIN m : a.g = g} |-> m[a]]
\* rows of a matrix minus the identity (repeated columns allowed, Dense adds them)
MinusId(M) == [r \in DOMAIN M |-> Append(M[r], <<r,P-1>>)]
\* repeated columns are added up by Dense
\* a group of permutation matrices acting by permutations: one invariant per orbit
RECURSIVE OrbitLabels(_,_)
OrbitLabels(ps,lab) ==
  LET new == TLCEval([k \in DOMAIN lab |-> FoldLeft(LAMBDA a,p : IF lab[p[k]] < a THEN lab[p[k]] ELSE a, lab[k], ps)])
  IN IF new = lab THEN lab ELSE OrbitLabels(ps,new)
OrbitCount(ps,n) == Cardinality(Range(OrbitLabels(ps,[k \in 1..n |-> k])))
ByOrbits(m,g) == GT[g].perm = 1 /\ \A a \in DOMAIN m : a.b \in {"V","triv"}
PartDim(m,g) ==
  IF DOMAIN m = {} THEN 1
  ELSE IF ByOrbits(m,g) THEN
       LET t == MonoTreeOf(m)
           D == Cat[g]
       IN OrbitCount([k \in DOMAIN D.disc |-> LET M == RhoT(t, g :> GrpElem(D.disc[k],D.d)) IN TLCEval([r \in DOMAIN M |-> M[r][1][1]])], Size(t))
  ELSE LET t == MonoTreeOf(m)
           n == Size(t)
           D == Cat[g]
           rows == FlattenSeq([k \in DOMAIN D.disc |-> MinusId(RhoT(t, g :> GrpElem(D.disc[k],D.d)))])
                \o FlattenSeq([k \in DOMAIN D.lie |-> DrhoT(t, g :> LieElem(D.lie[k],D.d))])
       IN n - Rank(rows,n)
\* keys whose dimension is needed for a tree
NeededParts(t) == {<<g, PartOf(m,g)>> : g \in GroupsOf(t), m \in DOMAIN Poly(t)}
DimOf(t,memo) == LET p == Poly(t) IN
   FoldSet(LAMBDA m,acc : acc + p[m]*FoldSet(LAMBDA g,b : b*memo[<<g,PartOf(m,g)>>], 1, {a.g : a \in DOMAIN m}), 0, DOMAIN p)
AddParts(t,memo) == LET new == NeededParts(t) \ DOMAIN memo
                    IN TLCEval([k \in new |-> PartDim(k[2],k[1])] @@ memo)

-----------------------------------------------------------------------------
(* numeric action on a vector v seen as (L, Size(t), R); entries are         *)
(* fixed point pairs <<re, im>>                                              *)
RDiv(x,s) == IF s = 1 THEN x ELSE (x + s \div 2) \div s
CAdd(a,b) == <<a[1]+b[1], a[2]+b[2]>>
AxisApply(X,sc,v,L,s,R) ==
  TLCEval([k \in 1..(L*s*R) |->
     LET l == (k-1) \div (s*R)
         row == (((k-1) \div R) % s) + 1
         r == (k-1) % R
         val(e) == v[(l*s + e[1]-1)*R + r + 1]
         z == FoldLeft(LAMBDA acc,e : LET y == val(e) IN <<acc[1] + e[2]*y[1] - e[3]*y[2], acc[2] + e[2]*y[2] + e[3]*y[1]>>, <<0,0>>, X[row])
     IN <<RDiv(z[1],sc), RDiv(z[2],sc)>>])
\* numeric matrix of an atom under a generator
Center(x) == IF x > P \div 2 THEN x - P ELSE x
CenterX(M) == [r \in DOMAIN M |-> [t \in DOMAIN M[r] |-> <<M[r][t][1], Center(M[r][t][2]), 0>>]]
NegT(X) == LET n == Len(X) IN
   [j \in 1..n |-> FlattenSeq([i \in 1..n |-> LET h == SelectSeq(X[i], LAMBDA e : e[1] = j) IN [u \in DOMAIN h |-> <<i,-h[u][2],-h[u][3]>>]])]
IdX(n,sc) == [r \in 1..n |-> << <<r,sc,0>> >>]
AtomX(t,h,D) == IF t.b = "V" THEN h.x
                ELSE IF t.b = "triv" THEN IdX(t.n,D.sc)
                ELSE CenterX(AtomRho(t,GrpElem(h,D.d)))
AtomA(t,a,D) == IF t.b = "V" THEN (IF t.d = 1 THEN NegT(a.x) ELSE a.x)
                ELSE IF t.b = "triv" THEN [r \in 1..t.n |-> <<>>]
                ELSE CenterX(AtomDrho(t,LieElem(a,D.d)))
PrefProd(s,j) == FoldLeft(LAMBDA a,x : a*Size(x), 1, SubSeq(s,1,j))
SufProd(s,j) == FoldLeft(LAMBDA a,x : a*Size(x), 1, SubSeq(s,j,Len(s)))
Sub3(v,L,n,R,o,s) == [k \in 1..(L*s*R) |-> LET l == (k-1) \div (s*R)
                                              x == (k-1) % (s*R)
                                          IN v[l*n*R + o*R + x + 1]]
Offs(c) == TLCEval([j \in 0..Len(c) |-> FoldLeft(LAMBDA a,x : a+Size(x), 0, SubSeq(c,1,j))])
\* glue blocks w[j] of shapes (L,s_j,R) into (L,n,R)
Glue(w,c,L,R) == LET o == Offs(c)
                     n == o[Len(c)]
                 IN TLCEval([k \in 1..(L*n*R) |->
                      LET l == (k-1) \div (n*R)
                          y == ((k-1) % (n*R)) \div R
                          r == (k-1) % R
                          j == CHOOSE j \in DOMAIN c : o[j-1] <= y /\ y < o[j]
                      IN w[j][(l*(o[j]-o[j-1]) + y - o[j-1])*R + r + 1]])
RECURSIVE Act(_,_,_,_,_,_)
Act(t,g,h,v,L,R) ==
  CASE t.k = "S" -> v
    [] t.k = "A" -> IF t.g # g THEN v ELSE AxisApply(AtomX(t,h,Cat[g]),Cat[g].sc,v,L,Size(t),R)
    [] t.k = "*" -> FoldLeft(LAMBDA acc,j : TLCEval(Act(t.c[j],g,h,acc,L*PrefProd(t.c,j-1),SufProd(t.c,j+1)*R)),
                             v, [j \in 1..Len(t.c) |-> j])
    [] t.k = "+" -> LET o == Offs(t.c)
                        n == o[Len(t.c)]
                    IN Glue(TLCEval([j \in DOMAIN t.c |-> Act(t.c[j],g,h,TLCEval(Sub3(v,L,n,R,o[j-1],o[j]-o[j-1])),L,R)]), t.c, L, R)
ZeroV(n) == [k \in 1..n |-> <<0,0>>]
RECURSIVE DAct(_,_,_,_,_,_)
DAct(t,g,a,v,L,R) ==
  CASE t.k = "S" -> ZeroV(Len(v))
    [] t.k = "A" -> IF t.g # g THEN ZeroV(Len(v)) ELSE AxisApply(AtomA(t,a,Cat[g]),Cat[g].sc,v,L,Size(t),R)
    [] t.k = "*" -> FoldLeft(LAMBDA acc,j : LET w == TLCEval(DAct(t.c[j],g,a,v,L*PrefProd(t.c,j-1),SufProd(t.c,j+1)*R))
                                              IN TLCEval([k \in DOMAIN v |-> CAdd(acc[k],w[k])]),
                             TLCEval(ZeroV(Len(v))), [j \in 1..Len(t.c) |-> j])
    [] t.k = "+" -> LET o == Offs(t.c)
                        n == o[Len(t.c)]
                    IN Glue(TLCEval([j \in DOMAIN t.c |-> DAct(t.c[j],g,a,TLCEval(Sub3(v,L,n,R,o[j-1],o[j]-o[j-1])),L,R)]), t.c, L, R)
Near(a,b,tol) == Abs(a-b) <= tol
VNear(v,w,tol) == \A k \in DOMAIN v : Near(v[k][1],w[k][1],tol) /\ Near(v[k][2],w[k][2],tol)
FixedByGroups(t,v,tol) == \A g \in GroupsOf(t) : \A k \in DOMAIN Cat[g].disc : VNear(Act(t,g,Cat[g].disc[k],v,1,1), v, tol)
KilledByAlgebras(t,v,tol) == \A g \in GroupsOf(t) : \A k \in DOMAIN Cat[g].lie : VNear(DAct(t,g,Cat[g].lie[k],v,1,1), ZeroV(Len(v)), tol)
=============================================================================
