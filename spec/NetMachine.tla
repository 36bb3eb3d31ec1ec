----------------------------- MODULE NetMachine -----------------------------
(* Layers and networks over the representations of RepMachine: which         *)
(* coordinates belong to which tensor, what gated() appends, how many        *)
(* parameters a bilinear layer has.                                          *)
EXTENDS RepMachine
\* the tensors of an expression in written order, with the coordinates each one occupies
RECURSIVE Comps(_)
Shift(cs,o) == [k \in DOMAIN cs |-> [m |-> cs[k].m, c |-> [j \in DOMAIN cs[k].c |-> cs[k].c[j]+o]]]
Comps(t) ==
  CASE t.k = "S" -> << [m |-> BagEmpty, c |-> <<1>>] >>
    [] t.k = "A" -> << [m |-> BagOne(t), c |-> [j \in 1..Size(t) |-> j]] >>
    [] t.k = "+" -> FoldLeft(LAMBDA acc,j : TLCEval(acc \o Shift(Comps(t.c[j]), FoldLeft(LAMBDA a,x : a + Size(x), 0, SubSeq(t.c,1,j-1)))),
                             <<>>, [j \in 1..Len(t.c) |-> j])
    [] t.k = "*" -> FoldLeft(LAMBDA acc,x : TLCEval(
         LET n == Size(x)
             B == Comps(x)
         IN FlattenSeq([a \in DOMAIN acc |-> [b \in DOMAIN B |->
              [m |-> BagAdd(acc[a].m,B[b].m),
               c |-> LET la == Len(acc[a].c) lb == Len(B[b].c) IN
                     [q \in 1..(la*lb) |-> (acc[a].c[((q-1) \div lb)+1]-1)*n + B[b].c[((q-1) % lb)+1]]]]])),
         Comps(t.c[1]), Tail(t.c))
IsScalarC(x) == DOMAIN x.m = {}
\* a tensor on which the group acts by permuting coordinates
IsPermC(x) == \A a \in DOMAIN x.m : a.b = "V" /\ GT[a.g].perm = 1
NeedsGate(x) == ~IsScalarC(x) /\ ~IsPermC(x)
Gates(t) == Len(SelectSeq(Comps(t),NeedsGate))
GatedT(t) == LET n == Gates(t) IN IF n = 0 THEN t ELSE Plus(t,NTimes(n,Sca))
\* parameters of the bilinear layer from a to b: for every tensor type of the input that also occurs among
\* the maps, one per occurrence in the maps and per used copy in the input (no more copies than coordinates)
MonoSize(m) == FoldSet(LAMBDA a,acc : FoldLeft(LAMBDA z,q : z*AtomSize(a), acc, [q \in 1..m[a] |-> q]), 1, DOMAIN m)
MinI(a,b) == IF a < b THEN a ELSE b
BilDim(a,b) == LET W == Poly(MapsT(a,b))
                   X == Poly(a)
               IN FoldSet(LAMBDA m,acc : acc + W[m]*MinI(X[m],MonoSize(m)), 0, {m \in DOMAIN X : m # BagEmpty /\ m \in DOMAIN W})
ResultN(rs,op) == IF op.o = "gated" THEN GatedT(rs[op.a]) ELSE Result(rs,op)
=============================================================================
