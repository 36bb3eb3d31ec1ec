----------------------------- MODULE TraceGroups -----------------------------
(* Validates what the library's groups are (C08) and what their samples are  *)
(* (C09) against their documented meaning.                                   *)
EXTENDS GroupMachine, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk(b,name) == IF b THEN <<>> ELSE <<name>>
\* recorded matrices: rows of <<column, re, im>>
DenseS(X,n) == TLCEval([r \in DOMAIN X |-> LET row == X[r] IN TLCEval([c \in 1..n |->
       LET h == SelectSeq(row, LAMBDA e : e[1] = c) IN IF h = <<>> THEN <<0,0>> ELSE <<h[1][2],h[1][3]>>])])

UserGens(t) == LET sc(M) == [r \in DOMAIN M |-> [c \in DOMAIN M[r] |-> <<S0*M[r][c],0>>]]
               IN [lie |-> [k \in DOMAIN t.x.lie |-> sc(t.x.lie[k])], disc |-> [k \in DOMAIN t.x.disc |-> sc(t.x.disc[k])]]
GensVerdict(ev,t) ==
  IF ev.ok = 0 THEN <<"reading the generators failed">> ELSE
  LET d == Dim(t)
      lies == [k \in DOMAIN ev.lie |-> DenseS(ev.lie[k],d)]
      discs == [k \in DOMAIN ev.disc |-> DenseS(ev.disc[k],d)]
      shaped == ev.d = d /\ (\A kl \in DOMAIN lies : Len(lies[kl]) = d)
                /\ \A kd \in DOMAIN discs : Len(discs[kd]) = d
  IN IF ~shaped THEN <<"dimension of the group">> ELSE
     (IF t.c = "User" THEN Chk(lies = UserGens(t).lie /\ discs = UserGens(t).disc, "generators of a user defined group")
      ELSE Chk(\A k \in DOMAIN lies : InAlgebra(t,lies[k]), "Lie algebra generators preserve the documented structure")
        \o Chk(\A k \in DOMAIN discs : InGroup(t,discs[k]), "discrete generators belong to the documented group")
        \o (IF (\A k \in DOMAIN lies : InAlgebra(t,lies[k])) /\ (\A k \in DOMAIN discs : InGroup(t,discs[k]))
            THEN Chk(Generates(t,lies,discs), "generators generate the documented group") ELSE <<>>))
     \o Chk(ev.nc = Len(lies) + Len(discs), "number of constraints")
     \o Chk((ev.orth = 1) = OrthGens(lies,discs), "orthogonality flag")
     \o Chk((ev.perm = 1) = PermGens(lies,discs), "permutation flag")

\* membership up to a nonzero factor
PropForm(t,A,sc) == LET J == FormOf(t,1)
                        G == MulN(MulN(Adj(t,A),J,1),A,sc)
                        n == Dim(t)
                        p == CHOOSE p \in (1..n) \X (1..n) : J[p[1]][p[2]][1] # 0
                        l == <<G[p[1]][p[2]][1]*J[p[1]][p[2]][1], G[p[1]][p[2]][2]*J[p[1]][p[2]][1]>>
                    IN NearN(G,[a \in 1..n |-> [b \in 1..n |-> MulC(l,J[a][b])]],TolForm(A,sc)*2)
PermLike(A,sc) == \A a \in DOMAIN A : Cardinality({b \in DOMAIN A[1] : 4*(Abs(A[a][b][1])+Abs(A[a][b][2])) > sc}) = 1
PermLike1(A) == TLCEval([a \in DOMAIN A |-> [b \in DOMAIN A[1] |-> IF A[a][b] = <<0,0>> \/ 8*(Abs(A[a][b][1])+Abs(A[a][b][2])) < MaxAbs(A) THEN <<0,0>> ELSE <<S0,0>>]])
RECURSIVE PropMember(_,_,_)
\* the two factors of a Kronecker product, up to scalars; the largest entry is the pivot
Pivot(A) == CHOOSE p \in (DOMAIN A) \X (DOMAIN A) : LET z == A[p[1]][p[2]] IN \A a \in DOMAIN A : \A b \in DOMAIN A :
              Abs(A[a][b][1])+Abs(A[a][b][2]) <= Abs(z[1])+Abs(z[2])
KronSplit(A,n,m) == LET p == Pivot(A)
                        i1 == (p[1]-1) \div m
                        i2 == (p[1]-1) % m
                        j1 == (p[2]-1) \div m
                        j2 == (p[2]-1) % m
                    IN [z |-> A[p[1]][p[2]],
                        l |-> TLCEval([a \in 1..n |-> [b \in 1..n |-> A[(a-1)*m+i2+1][(b-1)*m+j2+1]]]),
                        r |-> TLCEval([a \in 1..m |-> [b \in 1..m |-> A[i1*m+a][j1*m+b]]])]
ProdMember(t,A,sc) ==
  LET n == Dim(t.s[1])
      m == Dim(t.s[2])
      s == TLCEval(KronSplit(A,n,m))
      tol == 6*(Abs(s.z[1])+Abs(s.z[2])) + (MaxAbs(A)*(MaxAbs(A) \div 100)) \div 100
  IN /\ \A a,b \in 1..(n*m) : NearC(MulC(s.z,A[a][b]), MulC(s.l[((a-1) \div m)+1][((b-1) \div m)+1], s.r[((a-1) % m)+1][((b-1) % m)+1]), tol)
     /\ PropMember(t.s[1],s.l,sc)
     /\ PropMember(t.s[2],s.r,sc)
PropMember(t,A,sc) ==
  CASE t.c = "Prod" -> ProdMember(t,A,sc)
    [] t.c \in PermType \cup {"Tri"} -> LET B == PermLike1(A) IN IsPermN(B,S0,1) /\ GroupMember(t,B,S0)
    [] HasForm(t) -> PropForm(t,A,sc)
    [] t.c = "Sca" -> NearN(A,[a \in DOMAIN A |-> [b \in DOMAIN A |-> IF a = b THEN A[1][1] ELSE <<0,0>>]],TolForm(A,sc))
    [] OTHER -> TRUE
\* powers of the generator of a user group; multiples of its nilpotent Lie algebra element
RECURSIVE IntPow(_,_)
IMul(A,B) == [a \in DOMAIN A |-> [b \in DOMAIN A |-> SumSeq([k \in DOMAIN A |-> A[a][k]*B[k][b]])]]
IId(n) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 1 ELSE 0]]
IntPow(A,k) == IF k = 0 THEN IId(Len(A)) ELSE IMul(A,IntPow(A,k-1))
UserMember(t,A,sc) ==
  LET n == t.a
      tol == sc \div 200 + 2
      S(M) == [a \in 1..n |-> [b \in 1..n |-> <<sc*M[a][b],0>>]]
  IN IF t.x.lie = <<>> THEN LET g == t.x.disc[1] IN \E k \in 0..15 :
          LET M == S(IntPow(g,k)) IN NearN(A,M,tol) \/ NearN(MulN(A,M,sc),IdN(n,sc),tol*4)
     ELSE LET h == t.x.lie[1]
              p == CHOOSE p \in (1..n) \X (1..n) : h[p[1]][p[2]] # 0
          IN IF IMul(h,h) = [a \in 1..n |-> [b \in 1..n |-> 0]]
             THEN LET z == A[p[1]][p[2]][1]*h[p[1]][p[2]] q == h[p[1]][p[2]]*h[p[1]][p[2]]
                  IN NearN(A,[a \in 1..n |-> [b \in 1..n |-> <<(IF a = b THEN sc ELSE 0) + RoundDiv(z*h[a][b],q),0>>]],tol)
             ELSE NearN(MulN(TrN(A),A,sc),IdN(n,sc),TolForm(A,sc))
RECURSIVE SampleMember(_,_,_)
SampleMember(t,A,sc) ==
  CASE t.c = "Emb" -> EmbOutside(t,A,sc,3) /\ SampleMember(t.s[1],BlockN(A,EmbIdx(t)),sc)
    [] t.c = "Prod" -> ProdMember(t,A,sc)
    [] t.c = "User" -> UserMember(t,A,sc)
    [] OTHER -> GroupMember(t,A,sc)
SamplesVerdict(ev,t) ==
  IF ev.ok = 0 THEN <<"sampling failed">> ELSE
  LET d == Dim(t) IN
  Chk(ev.shape = <<ev.n,d,d>>, "shape of samples") \o Chk(ev.shape1 = <<d,d>>, "shape of a sample") \o Chk(ev.finite = 1, "finite samples")
  \o Chk(ev.shape0 = <<0,d,d>>, "no samples")
  \o (IF ev.shape # <<ev.n,d,d>> \/ ev.finite = 0 THEN <<>> ELSE
      Chk(4*Len(ev.s) >= ev.k, "samples of reasonable size")
      \o Chk(\A k \in DOMAIN ev.s : SampleMember(t,DenseS(ev.s[k].m,d),ev.s[k].sc), "samples belong to the group"))
\* number of components a sample may fall in
RECURSIVE FinPart(_)
FinPart(t) == CASE t.c \in {"S"} -> Fact(t.a) [] t.c \in {"Z","C","D","Zks","Rub","Cube"} -> 48
                [] t.c = "Prod" -> IF FinPart(t.s[1]) > 8 \/ FinPart(t.s[2]) > 8 THEN 48 ELSE FinPart(t.s[1])*FinPart(t.s[2])
                [] t.c = "Emb" -> FinPart(t.s[1])
                [] t.c \in {"SO13","Par","TR"} -> 2 [] t.c = "O" -> 2 [] t.c \in {"O13","Lor","O11"} -> 4
                [] OTHER -> 1
\* small noise: the samples near the identity span exactly the Lie algebra
RECURSIVE NumRank(_,_,_)
NumRank(rows,cnt,thr) ==   \* elimination with complete pivoting in fixed point
  IF rows = <<>> THEN cnt ELSE
  LET n == Len(rows[1])
      mx == [r \in DOMAIN rows |-> FoldLeft(LAMBDA a,x : IF Abs(x) > a THEN Abs(x) ELSE a, 0, rows[r])]
      best == FoldLeft(LAMBDA a,r : IF mx[r] > mx[a] THEN r ELSE a, 1, [r \in DOMAIN rows |-> r])
  IN IF mx[best] < thr THEN cnt ELSE
     LET pr == rows[best]
         c == CHOOSE c \in 1..n : Abs(pr[c]) = mx[best]
         rest == SubSeq(rows,1,best-1) \o SubSeq(rows,best+1,Len(rows))
         sgn == IF pr[c] > 0 THEN 1 ELSE -1
         new == TLCEval([r \in DOMAIN rest |-> IF rest[r][c] = 0 THEN rest[r] ELSE [x \in 1..n |-> rest[r][x] - sgn*RoundDiv(rest[r][c]*pr[x],mx[best])]])
     IN NumRank(new,cnt+1,thr)
\* scalar matrices in the Lie algebra / minus the identity in the group: shared by the factors of a product
RECURSIVE HasScalars(_)
HasScalars(t) == t.c \in {"GL","U","Sca"} \/ (t.c = "Prod" /\ (HasScalars(t.s[1]) \/ HasScalars(t.s[2])))
RECURSIVE HasMinus(_)
HasMinus(t) == (t.c \in {"C","D"} /\ t.a % 2 = 0) \/ (t.c = "Prod" /\ (HasMinus(t.s[1]) \/ HasMinus(t.s[2])))
HasAmbig(t) == t.c = "Prod" /\ HasMinus(t.s[1]) /\ HasMinus(t.s[2])
RECURSIVE Directions(_)
Directions(t) == CASE t.c = "Emb" -> Directions(t.s[1])
                   [] t.c = "Prod" -> Directions(t.s[1]) + Directions(t.s[2]) - (IF HasScalars(t.s[1]) /\ HasScalars(t.s[2]) THEN 1 ELSE 0)
                   [] t.c = "User" -> Len(t.x.lie)
                   [] OTHER -> LieDim(t)
DirsVerdict(ev,t) == IF ev.ok = 0 THEN <<"sampling failed">> ELSE
  IF Directions(t) = 0 \/ (Len(ev.near) < 2*Directions(t)+8 /\ FinPart(t) > 8) THEN <<>>
  ELSE IF Len(ev.near) < Min({2*Directions(t)+8,12}) THEN <<"samples with small noise near the identity">>
  ELSE Chk(NumRank(ev.near,0,300) = Directions(t), "samples vary in every direction of the Lie algebra")
       \o Chk(\A c \in DOMAIN ev.near[1] : (\E r \in DOMAIN ev.near : Abs(ev.near[r][c]) > 1000)
                 => (\E r \in DOMAIN ev.near : ev.near[r][c] > 0) /\ (\E r \in DOMAIN ev.near : ev.near[r][c] < 0), "samples vary to both sides")
\* finite groups of permutations, rotations, and components
RECURSIVE Order(_)
Order(t) == CASE t.c = "S" -> Fact(t.a) [] t.c = "Z" -> t.a [] t.c = "Tri" -> 1 [] t.c = "Cube" -> 24
              [] t.c = "Zks" -> t.a*t.b*t.b [] t.c = "Rub" -> 1000000
              [] t.c = "C" -> t.a [] t.c = "D" -> 2*t.a [] t.c \in {"Par","TR"} -> 2
              [] t.c = "O" /\ t.a = 1 -> 2
              [] t.c = "Emb" -> Order(t.s[1]) [] t.c = "Prod" -> LET a == Order(t.s[1]) b == Order(t.s[2]) IN IF a > 1000 \/ b > 1000 THEN 1000000 ELSE a*b
              [] t.c = "User" -> IF t.x.lie # <<>> \/ (t.b \in {1,7,8}) THEN 1 ELSE 2
              [] OTHER -> IF LieDim(t) = 0 THEN 1 ELSE 1000000
ReachVerdict(ev,t) == IF ev.ok = 0 THEN <<"sampling failed">> ELSE
  LET d == Dim(t)
      S == {ev.s[k].m : k \in DOMAIN ev.s}
  IN (IF Order(t) <= 12 /\ ~HasAmbig(t) /\ t.c # "User" THEN Chk(Cardinality(S) = Order(t), "every element of a small group is sampled") ELSE <<>>)
     \o (IF Order(t) > 1 THEN Chk(Cardinality(S) > 1, "samples are not all equal") ELSE <<>>)
     \o (IF t.c \in {"O"} \cup LorType THEN Chk(CompsOf(t) \subseteq {CompOf(t,DenseS(ev.s[k].m,d),ev.s[k].sc) : k \in DOMAIN ev.s}, "every component is sampled") ELSE <<>>)
Verdict(ev) == CASE ev.e = "reset" -> <<>>
   [] ev.e = "crash" -> <<"unexpected exception">>
   [] ev.e = "op" -> Chk(ev.ok = 1, "constructing a group failed")
   [] ev.e = "gens" -> GensVerdict(ev,terms[ev.i])
   [] ev.e = "samples" -> SamplesVerdict(ev,terms[ev.i])
   [] ev.e = "dirs" -> DirsVerdict(ev,terms[ev.i])
   [] ev.e = "reach" -> ReachVerdict(ev,terms[ev.i])
Init == i = 1 /\ terms = <<>>
Report(v) == \A k \in DOMAIN v : PrintT(<<"REJECT", i, v[k]>>)
Next == /\ i <= Len(Trace)
        /\ LET ev == Trace[i] IN
           /\ Report(Verdict(ev)) = TRUE
           /\ terms' = CASE ev.e = "reset" -> <<>> [] ev.e = "op" -> Append(terms,ResultG(terms,ev.op)) [] OTHER -> terms
        /\ i' = i + 1
        /\ PrintT(<<IF i = Len(Trace) THEN "DONE" ELSE "AT", i>>)
=============================================================================
