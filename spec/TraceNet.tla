------------------------------ MODULE TraceNet ------------------------------
(* Validates recorded layers, networks, augmentations and allocations.       *)
EXTENDS TraceSolve, NetMachine, Alloc
Res(x) == x % P
\* matrices of residues: sequence of rows
DenseOf(M,n) == [r \in DOMAIN M |-> Dense(M[r],n)]
DMul(A,B) == LET m == Len(B[1]) IN TLCEval([r \in DOMAIN A |-> [c \in 1..m |-> FoldLeft(LAMBDA acc,k : (acc + A[r][k]*B[k][c]) % P, 0, [k \in DOMAIN B |-> k])]])
DVec(A,x) == TLCEval([r \in DOMAIN A |-> FoldLeft(LAMBDA acc,k : (acc + A[r][k]*x[k]) % P, 0, [k \in DOMAIN x |-> k])])
VLin(a,x,b,y) == [k \in DOMAIN x |-> (a*x[k] + b*y[k]) % P]
MLin(a,X,b,Y) == [r \in DOMAIN X |-> VLin(a,X[r],b,Y[r])]
IsMat(X,n,m) == Len(X) = n /\ \A r \in DOMAIN X : Len(X[r]) = m

-----------------------------------------------------------------------------
(* C11 *)
SumF(f(_),n) == FoldLeft(LAMBDA a,k : a + f(k), 0, [k \in 1..n |-> k])
RankOf(x) == x[1]+x[2]
AllocVerdict(ev) ==
  IF ev.ok = 0 THEN <<"allocation failed">>
  ELSE LET d == GT[ev.g].d
           ns == Ranks(ev.ch,d)
           L == ev.reps           \* <<p,q,count>>
           cnt(p,q) == FoldLeft(LAMBDA a,x : IF x[1] = p /\ x[2] = q THEN a + x[3] ELSE a, 0, L)
       IN Chk(ev.size = ev.ch, "size is the number of channels")
          \o Chk(ev.conc = 1, "instantiated")
          \o Chk(ev.canon = 1, "canonical")
          \o Chk(ev.other = 0, "only tensors T(p,q) of the group")
          \o Chk(SumF(LAMBDA k : L[k][3]*Pow(d,RankOf(L[k])), Len(L)) = ev.ch, "dimensions of the tensors")
          \o Chk(\A k \in DOMAIN ns : FoldLeft(LAMBDA a,x : IF RankOf(x) = k-1 THEN a + x[3] ELSE a, 0, L) = ns[k], "tensors of each rank")
          \o Chk(\A x \in Range(L) : RankOf(x) < Len(ns) /\ x[3] > 0, "no tensors of other ranks")
          \o (IF GT[ev.g].orth = 1 THEN Chk(\A x \in Range(L) : x[2] = 0, "orthogonal groups have one kind of each rank")
              ELSE Chk(\A k \in DOMAIN ns : \A p \in 0..(k-1) : Full(ns[k],k-1) > 0 => cnt(p,k-1-p) >= Full(ns[k],k-1)*BinomC(k-1,p), "binomial split of full sets"))

-----------------------------------------------------------------------------
(* C12: logistic function of small integers, scaled by QS *)
Sig == [v \in (-6)..6 |-> CASE v = -6 -> 25 [] v = -5 -> 67 [] v = -4 -> 180 [] v = -3 -> 474 [] v = -2 -> 1192 [] v = -1 -> 2689 [] v = 0 -> 5000
         [] v = 1 -> 7311 [] v = 2 -> 8808 [] v = 3 -> 9526 [] v = 4 -> 9820 [] v = 5 -> 9933 [] v = 6 -> 9975]
GateVerdict(ev) ==
  IF ev.ok = 0 THEN <<"gating failed">>
  ELSE LET t == regs[ev.a]
           n == Size(t)
           cs == Comps(t)
           gated == {k \in DOMAIN cs : NeedsGate(cs[k])}
           ng == Cardinality(gated)
           is(r,u,j) == Abs(ev.out[r][u] - ev.val[r][u]*Sig[ev.val[r][j]]) <= 6
           cand == [k \in gated |-> {j \in (n+1)..(n+ng) : \A r \in DOMAIN ev.val : \A q \in DOMAIN cs[k].c : is(r,cs[k].c[q],j)}]
       IN IF ev.size # n + ng THEN <<"number of gates">>
          ELSE IF ~(\A r \in DOMAIN ev.out : Len(ev.out[r]) = n) THEN <<"shape of the output">>
          ELSE Chk(\A k \in gated : cand[k] # {}, "every tensor is scaled by one gate")
            \o Chk(\A k,m \in gated : k # m => cand[k] \cap cand[m] = {}, "a gate of its own for every tensor")
            \o Chk(\A k \in DOMAIN cs \ gated : \A q \in DOMAIN cs[k].c : \A r \in DOMAIN ev.val : is(r,cs[k].c[q],cs[k].c[q]), "swish on scalars and permutation representations")

-----------------------------------------------------------------------------
(* C13 *)
BilVerdict(ev) ==
  IF ev.ok = 0 THEN <<"the bilinear layer failed">>
  ELSE LET a == regs[ev.a]
           b == regs[ev.b]
           n == Size(a)
           m == Size(b)
           E == els[ev.id]
           Ra == DenseOf(RhoT(a,E),n)
           Rb == DenseOf(RhoT(b,E),m)
       IN IF ~(\A X \in {ev.W11,ev.W21,ev.W12,ev.Wc1,ev.W1c,ev.Wg} : IsMat(X,m,n)) THEN <<"shape of the matrix">>
          ELSE Chk(ev.wdim = BilDim(a,b), "number of parameters")
            \o Chk(ev.eff = ev.wdim, "every parameter has an effect")
            \o Chk(MLin(1,ev.W11,2,ev.W21) = ev.Wc1, "linear in the parameters")
            \o Chk(MLin(1,ev.W11,P-3,ev.W12) = ev.W1c, "linear in the input")
            \o Chk(ev.gx = DVec(Ra,ev.x), "HARNESS transformed input")
            \o Chk(DMul(ev.Wg,Ra) = DMul(Rb,ev.W11), "the matrix transforms as a map between the representations")
            \o Chk(ev.batch = 1, "batches are treated element by element")
BilLayerVerdict(ev) ==
  IF ev.ok = 0 THEN <<"the bilinear layer failed">>
  ELSE LET b == regs[ev.b]
           E == els[ev.id]
           Rb == DenseOf(RhoT(b,E),Size(b))
       IN IF ~(\A y \in {ev.y1,ev.y2,ev.yp,ev.ym,ev.yg,ev.w2y,ev.wcy} : Len(y) = Size(b)) THEN <<"shape of the output">>
          ELSE Chk(ev.gx = DVec(DenseOf(RhoT(regs[ev.a],E),Size(regs[ev.a])),ev.x), "HARNESS transformed input")
            \o Chk(ev.nparam = BilDim(regs[ev.a],b), "number of parameters of the layer")
            \o Chk(VLin(1,ev.yp,1,ev.ym) = VLin(2,ev.y1,2,ev.y2), "quadratic in the input")
            \o Chk(ev.wcy = VLin(1,ev.y1,2,ev.w2y), "linear in the parameters of the layer")
            \o Chk(ev.yg = DVec(Rb,ev.y1), "the layer output transforms by the output representation")
            \o Chk(ev.batch = 1, "batches are treated element by element")

-----------------------------------------------------------------------------
(* C14: recorded with WS steps per unit *)
WS == 1000
Pairs0(v) == [k \in DOMAIN v |-> <<v[k],0>>]
Diff(w,v) == [k \in DOMAIN v |-> w[k]*WS - v[k]]
Dot(u,v) == FoldLeft(LAMBDA acc,k : acc + u[k]*v[k], 0, [k \in DOMAIN u |-> k])
ProjectedVerdict(t,w,v,Q,what) ==
  Chk(INV!FixedByGroups(t,Pairs0(v),25) /\ INV!KilledByAlgebras(t,Pairs0(v),25), what \o " is equivariant")
  \o Chk(Len(Q) = INV!DimOf(t,memo') /\ \A c \in DOMAIN Q : Len(Q[c]) = Len(v) /\ INV!FixedByGroups(t,Pairs0(Q[c]),TolV) /\ INV!KilledByAlgebras(t,Pairs0(Q[c]),TolV), "HARNESS basis of the invariants")
  \o Chk(\A c \in DOMAIN Q : Abs(Dot(Diff(w,v),Q[c])) <= 500000, what \o " is the projection of the raw one")
LinVerdict(ev) ==
  IF ev.ok = 0 THEN <<"the linear layer failed">>
  ELSE LET a == regs[ev.a]
           b == regs[ev.b]
           n == Size(a)
           m == Size(b)
       IN IF ~(Len(ev.W) = n*m /\ Len(ev.B) = m /\ Len(ev.w) = n*m /\ Len(ev.b0) = m /\ IsMat(ev.Y,Len(ev.X),m)) THEN <<"shape of the layer">>
          ELSE ProjectedVerdict(MapsT(a,b),ev.w,ev.W,ev.Q,"the applied weight")
            \o ProjectedVerdict(b,ev.b0,ev.B,ev.Qb,"the applied bias")
            \o Chk(\A r \in DOMAIN ev.X : \A k \in 1..m :
                     Abs(ev.Y[r][k] - FoldLeft(LAMBDA acc,j : acc + ev.W[(k-1)*n+j]*ev.X[r][j], ev.B[k], [j \in 1..n |-> j])) <= 10 + 3*n, "the layer is affine, also on batches")

-----------------------------------------------------------------------------
(* C15: outputs are scaled to a common size; the inputs were computed with the history *)
TolN == 120
NetVerdict(ev) ==
  IF ev.ok = 0 THEN <<"the network failed">>
  ELSE LET op == ev.op
           to == InstT(regs[op.b],op.g)
           m == Size(to)
           D == Cat[op.g]
       IN IF ~(\A p \in DOMAIN op.pts : Len(ev.y[p].y) = m /\ (\A k \in DOMAIN ev.y[p].d : Len(ev.y[p].d[k]) = m) /\ \A k \in DOMAIN ev.y[p].l : Len(ev.y[p].l[k]) = m) THEN <<"shape of the output">>
          ELSE Chk(\A p \in DOMAIN op.pts : \A k \in DOMAIN D.disc :
                    INV!VNear(INV!Act(to,op.g,D.disc[k],Pairs0(ev.y[p].y),1,1), Pairs0(ev.y[p].d[k]), TolN), "equivariant under the discrete generators")
            \o Chk(\A p \in DOMAIN op.pts : \A k \in DOMAIN op.pts[p].im.l :
                    INV!VNear(INV!DAct(to,op.g,D.lie[op.pts[p].im.l[k].i],Pairs0(ev.y[p].y),1,1), Pairs0(ev.y[p].l[k]), TolN), "equivariant under the Lie algebra")
            \o Chk(\A p \in DOMAIN op.pts : INV!VNear(Pairs0(ev.y1[p]), Pairs0(ev.y[p].y), 40), "single and batched evaluation agree")
            \o (IF ev.hid = <<>> THEN <<>>
                ELSE IF Len(ev.hid) # (IF op.list = 1 THEN Len(op.hid) ELSE op.L) THEN <<"number of hidden layers">>
                ELSE Chk(\A k \in DOMAIN ev.hid : LET h == IF op.list = 1 THEN op.hid[k] ELSE op.hid[1]
                          IN ev.hid[k] = (IF h.kind = 1 THEN h.val ELSE Size(InstT(regs[h.val],op.g))), "sizes of the hidden layers"))
            \o Chk(INV!VNear(Pairs0(ev.aux),Pairs0(ev.want),60), "the wrapper agrees with the network")

-----------------------------------------------------------------------------
(* C18: the model z -> (sum_j A[i][j] z[j] + B[i] z[i1] z[i2]) is known *)
AugModel(ev,z) == TLCEval([k \in DOMAIN ev.A |-> (FoldLeft(LAMBDA acc,j : (acc + ev.A[k][j]*z[j]) % P, 0, [j \in DOMAIN z |-> j])
                     + ev.C[k][1]*((z[ev.C[k][2]]*z[ev.C[k][3]]) % P)) % P])
AugVerdict(ev) ==
  IF ev.ok = 0 THEN <<"augmentation failed">>
  ELSE LET a == InstT(regs[ev.a],ev.g)
           b == InstT(regs[ev.b],ev.g)
           N == Len(ev.X)
           row(k) == LET E == ev.g :> ev.els[k]
                         z == SpApply(RhoT(a,E),[j \in DOMAIN ev.X[k] |-> Res(ev.X[k][j])])
                     IN Len(ev.Y[k]) = Size(b) /\ SpApply(RhoT(b,E),ev.Y[k]) = AugModel(ev,z)
       IN Chk(ev.nels = N, "one group element per row")
          \o Chk(Len(ev.Y) = N /\ (ev.nels = N => \A k \in 1..N : row(k)), "the model in the transformed frame")
          \o Chk(Len(ev.Z) = N /\ \A k \in 1..N : ev.Z[k] = AugModel(ev,[j \in DOMAIN ev.X[k] |-> Res(ev.X[k][j])]), "the model itself when not training")
          \o Chk(ev.eval = 0, "nothing is sampled when not training")
          \o Chk(ev.flags = <<1,0>>, "the training flag is passed on")
AugEqVerdict(ev) ==
  IF ev.ok = 0 THEN <<"augmentation failed">>
  ELSE Chk(\A k \in DOMAIN ev.Y : INV!VNear(Pairs0(ev.Y[k]),Pairs0(ev.Z[k]),TolN), "augmenting an equivariant model changes nothing")

-----------------------------------------------------------------------------
TreesAsked(ev) == CASE ev.e = "lin" -> {MapsT(regs[ev.a],regs[ev.b]), regs[ev.b]} [] ev.e \in {"basis","proj"} -> {regs[ev.r]} [] OTHER -> {}
RECURSIVE AddAll(_,_)
AddAll(S,mm) == IF S = {} THEN mm ELSE LET t == CHOOSE t \in S : TRUE IN AddAll(S \ {t}, INV!AddParts(t,mm))
OpVerdictN(ev) ==
   IF ev.ok = 0 THEN <<"operation failed">>
   ELSE LET t == ResultN(regs,ev.op) IN
        Chk((ev.conc = 1) = Conc(t), "instantiated") \o Chk(ev.txt = 1, "text")
        \o (IF Conc(t) THEN Chk(ev.size = Size(t), "size") ELSE <<>>)
AllVerdict(ev) == CASE ev.e = "alloc" -> AllocVerdict(ev)
    [] ev.e = "op" -> OpVerdictN(ev)
    [] ev.e = "gate" -> GateVerdict(ev)
    [] ev.e = "bil" -> BilVerdict(ev)
    [] ev.e = "billayer" -> BilLayerVerdict(ev)
    [] ev.e = "lin" -> LinVerdict(ev)
    [] ev.e = "net" -> NetVerdict(ev)
    [] ev.e = "aug" -> AugVerdict(ev)
    [] ev.e = "augeq" -> AugEqVerdict(ev)
    [] OTHER -> SolveVerdict(ev)
NetTraceNext ==
  /\ i <= Len(Trace)
  /\ LET ev == Trace[i] IN
     /\ memo' = IF ev.e = "lin" /\ ev.ok = 0 THEN memo ELSE AddAll(TreesAsked(ev),memo)
     /\ answers' = <<>>
     /\ Report(AllVerdict(ev)) = TRUE
     /\ regs' = CASE ev.e = "reset" -> <<>> [] ev.e = "op" /\ ev.ok = 1 -> Append(regs,ResultN(regs,ev.op)) [] OTHER -> regs
     /\ els' = CASE ev.e = "reset" -> <<>> [] ev.e = "elems" -> Append(els,ev.g) [] OTHER -> els
     /\ i' = i + 1
  /\ Progress
=============================================================================
