----------------------------- MODULE GroupTerms -----------------------------
(* The documented meaning of the group constructors, for every parameter:    *)
(* dimension, defining form, number of continuous directions, finite part.   *)
(* A term is [c |-> constructor, a, b |-> parameters, s |-> <<subterms>>,    *)
(* h, st |-> end and step of an embedding's slice, x |-> generators of a     *)
(* user defined group].                                                      *)
(* Matrices are sequences of rows of entries <<re, im>> scaled by sc.        *)
EXTENDS Groups

S0 == 5040
Term(c,a,b,s) == [c |-> c, a |-> a, b |-> b, s |-> s, h |-> 0, st |-> 1, x |-> [lie |-> <<>>, disc |-> <<>>]]
RECURSIVE Dim(_)
Dim(t) == CASE t.c \in {"Tri","SO","O","S","Z","SL","GL","U","SU","Sca"} -> t.a
            [] t.c \in {"C","D","SO11p","O11"} -> 2
            [] t.c = "Sp" -> 2*t.a
            [] t.c \in {"Par","TR","SO13p","SO13","O13","Lor"} -> 4
            [] t.c = "Cube" -> 6
            [] t.c = "Rub" -> 48
            [] t.c = "Zks" -> t.a*t.b*t.b
            [] t.c = "Emb" -> t.a
            [] t.c = "Prod" -> Dim(t.s[1])*Dim(t.s[2])
            [] t.c = "User" -> t.a
\* number of independent Lie algebra directions
LieDim(t) == CASE t.c \in {"Tri","S","Z","C","D","Par","TR","Cube","Rub","Zks"} -> 0
               [] t.c \in {"SO","O"} -> (t.a*(t.a-1)) \div 2
               [] t.c = "SL" -> t.a*t.a - 1
               [] t.c = "GL" -> t.a*t.a
               [] t.c = "U" -> t.a*t.a
               [] t.c = "SU" -> t.a*t.a - 1
               [] t.c = "Sp" -> t.a*(2*t.a+1)
               [] t.c = "Sca" -> 1
               [] t.c \in {"SO13p","SO13","O13","Lor"} -> 6
               [] t.c \in {"SO11p","O11"} -> 1
LorType == {"SO13p","SO13","O13","Lor","SO11p","O11"}
OrthType == {"SO","O","C","D","Par","TR","Tri"}
PermType == {"S","Z","Cube","Rub","Zks"}

-----------------------------------------------------------------------------
(* fixed point matrices *)
RoundDiv(x,s) == IF x >= 0 THEN (x + s \div 2) \div s ELSE -((-x + s \div 2) \div s)
MulC(z,w) == <<z[1]*w[1]-z[2]*w[2], z[1]*w[2]+z[2]*w[1]>>
SumC(s) == FoldLeft(LAMBDA u,v : <<u[1]+v[1],u[2]+v[2]>>, <<0,0>>, s)
MulN(A,B,sc) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN B[1] |->
      LET z == SumC([k \in DOMAIN B |-> IF A[i][k] = <<0,0>> THEN <<0,0>> ELSE MulC(A[i][k],B[k][j])]) IN <<RoundDiv(z[1],sc),RoundDiv(z[2],sc)>>]])
TrN(A) == [j \in DOMAIN A[1] |-> [i \in DOMAIN A |-> A[i][j]]]
HermN(A) == [j \in DOMAIN A[1] |-> [i \in DOMAIN A |-> <<A[i][j][1],-A[i][j][2]>>]]
IdN(n,sc) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<sc,0>> ELSE <<0,0>>]]
AddN(A,B) == [i \in DOMAIN A |-> [j \in DOMAIN A[1] |-> <<A[i][j][1]+B[i][j][1],A[i][j][2]+B[i][j][2]>>]]
ScaleN(c,A) == [i \in DOMAIN A |-> [j \in DOMAIN A[1] |-> <<c*A[i][j][1],c*A[i][j][2]>>]]
NearC(z,w,tol) == Abs(z[1]-w[1]) <= tol /\ Abs(z[2]-w[2]) <= tol
NearN(A,B,tol) == \A i \in DOMAIN A : \A j \in DOMAIN A[1] : NearC(A[i][j],B[i][j],tol)
ZeroN(n) == [i \in 1..n |-> [j \in 1..n |-> <<0,0>>]]
MaxAbs(A) == Max({Abs(A[i][j][k]) : i \in DOMAIN A, j \in DOMAIN A[1], k \in {1,2}})
IsSquare(A,n) == DOMAIN A = 1..n /\ \A i \in 1..n : DOMAIN A[i] = 1..n
RealN(A) == \A i \in DOMAIN A : \A j \in DOMAIN A[1] : A[i][j][2] = 0
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n*Fact(n-1)
RECURSIVE PowN(_,_)
PowN(b,e) == IF e = 0 THEN 1 ELSE b*PowN(b,e-1)
\* determinant, rounding at every product
RECURSIVE DetN(_,_,_,_)
DetN(A,r,cols,sc) ==
  IF cols = {} THEN <<sc,0>>
  ELSE LET s == SetToSortSeq(cols,<)
       IN SumC([t \in 1..Len(s) |-> IF A[r][s[t]] = <<0,0>> THEN <<0,0>> ELSE
             LET m == MulC(A[r][s[t]], DetN(A,r+1,cols \ {s[t]},sc))
                 d == <<RoundDiv(m[1],sc),RoundDiv(m[2],sc)>>
             IN IF t % 2 = 1 THEN d ELSE <<-d[1],-d[2]>>])
\* the determinant at the largest scale at which nothing overflows: <<scale, determinant>>; <<0,..>> when there is none
DetScale(n,m) == LET ok == IF m > 30 \/ n > 6 \/ PowN(m,n) > 30000 THEN {} ELSE {s \in {5040,2000,1000,500,250,100} : PowN(m,n)*2*n <= 2000000000 \div (s*s)} IN IF ok = {} THEN 0 ELSE Max(ok)
\* how much the scaled defining relation of a matrix rounded to 1/sc may be off (float32 entries)
TolForm(A,sc) == LET m == MaxAbs(A) \div sc + 1 IN 4 + 2*Len(A)*m + (m*m*sc) \div 2000
TolDet(n,m,sc) == 4 + n*Fact(n)*PowN(m,n-1) + (PowN(m,n)*sc) \div 1000
RescaleN(A,sc,to) == IF sc = to THEN A ELSE TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[1] |-> <<RoundDiv(A[i][j][1]*to,sc),RoundDiv(A[i][j][2]*to,sc)>>]])
\* determinant 1, as far as the precision can tell
UnitDet(A,sc) == LET n == Len(A)
                     m == MaxAbs(A) \div sc + 1
                     s == Min({DetScale(n,m),sc})
                 IN s = 0 \/ NearC(DetN(RescaleN(A,sc,s),1,1..n,s),<<s,0>>,TolDet(n,m,s))
\* the sign of the determinant, 1 when the precision cannot tell
SignDet(A,sc) == LET n == Len(A)
                     m == MaxAbs(A) \div sc + 1
                     s == Min({DetScale(n,m),sc})
                 IN IF s = 0 THEN 0 ELSE LET d == DetN(RescaleN(A,sc,s),1,1..n,s)[1] IN IF Abs(Abs(d)-s) > s \div 2 THEN 0 ELSE IF d > 0 THEN 1 ELSE -1

-----------------------------------------------------------------------------
(* permutation matrices and what they generate *)
IsPermN(A,sc,tol) == \A i \in DOMAIN A :
     LET big == {j \in DOMAIN A[1] : ~NearC(A[i][j],<<0,0>>,tol)}
     IN /\ Cardinality(big) = 1 /\ \A j \in big : NearC(A[i][j],<<sc,0>>,tol)
        /\ \A k \in DOMAIN A : k # i => \A j \in big : NearC(A[k][j],<<0,0>>,tol)
PermOf(A,sc) == TLCEval([i \in DOMAIN A |-> CHOOSE j \in DOMAIN A[1] : 2*Abs(A[i][j][1]) > sc])
PMul(p,q) == [i \in DOMAIN p |-> q[p[i]]]
RECURSIVE Grow(_,_,_)
Grow(gens,front,seen) == IF front = {} THEN seen
   ELSE LET next == TLCEval({PMul(p,q) : p \in front, q \in gens} \ seen) IN Grow(gens,next,seen \cup next)
Closure(gens,n) == LET e == [i \in 1..n |-> i] IN Grow(gens,{e},{e})
PermsOfDef(D) == {[r \in DOMAIN h.p |-> h.p[r][1][1]] : h \in Range(D.disc)}
CubeElems == TLCEval(Closure(PermsOfDef(DefCube),6))

(* Rubik's cube: the elements of the group are the permutations of the stickers that move cubies, with     *)
(* twist sum 0 mod 3, flip sum 0 mod 2 and equal parities of corners and edges                             *)
Norm1(v) == Abs(v[1])+Abs(v[2])+Abs(v[3])
PosOf(s) == StickerTab[s-1][1]           \* s in 1..48
NrmOf(s) == StickerTab[s-1][2]
CornerPos == {v \in {PosOf(s) : s \in 1..48} : Norm1(v) = 3}
EdgePos == {v \in {PosOf(s) : s \in 1..48} : Norm1(v) = 2}
AtTab == TLCEval([v \in CornerPos \cup EdgePos |-> {s \in 1..48 : PosOf(s) = v}])
CornerSeq == SetToSeq(CornerPos)
EdgeSeq == SetToSeq(EdgePos)
\* stickers of a corner in clockwise order starting with the U or D sticker; of an edge starting with U, D, F or B
OrderAt == TLCEval([v \in CornerPos \cup EdgePos |->
   IF v \in CornerPos
   THEN LET a == CHOOSE s \in AtTab[v] : NrmOf(s)[2] # 0
            b == CHOOSE s \in AtTab[v] : s # a /\ Dot3(Cross3(NrmOf(a),NrmOf(s)),v) < 0
            c == CHOOSE s \in AtTab[v] : s # a /\ s # b
        IN <<a,b,c>>
   ELSE LET a == IF \E s \in AtTab[v] : NrmOf(s)[2] # 0 THEN CHOOSE s \in AtTab[v] : NrmOf(s)[2] # 0
                 ELSE CHOOSE s \in AtTab[v] : NrmOf(s)[3] # 0
            b == CHOOSE s \in AtTab[v] : s # a
        IN <<a,b>>])
ParityOf(f,dom) == \* parity of a permutation f of the finite set dom, by its number of cycles
   LET RECURSIVE CycCount(_,_)
       Orb(x) == LET RECURSIVE O(_,_)
                     O(y,acc) == IF f[y] \in acc THEN acc ELSE O(f[y],acc \cup {f[y]})
                 IN O(x,{x})
       CycCount(rest,n) == IF rest = {} THEN n ELSE CycCount(rest \ Orb(CHOOSE x \in rest : TRUE), n+1)
   IN (Cardinality(dom) - CycCount(dom,0)) % 2
ShiftIn(tgt,seq) == CHOOSE k \in 0..(Len(seq)-1) : \A j \in DOMAIN seq : tgt[j] = seq[((j-1+k) % Len(seq))+1]
IsShift(tgt,seq) == \E k \in 0..(Len(seq)-1) : \A j \in DOMAIN seq : tgt[j] = seq[((j-1+k) % Len(seq))+1]
RubikMember(p) ==   \* p : 1..48 -> 1..48 permutation
  LET cub == CornerPos \cup EdgePos
      dest == TLCEval([v \in cub |-> PosOf(p[OrderAt[v][1]])])
      img(v) == [j \in DOMAIN OrderAt[v] |-> p[OrderAt[v][j]]]
  IN /\ \A v \in cub : dest[v] \in cub /\ Norm1(dest[v]) = Norm1(v)
     /\ \A v \in cub : IsShift(img(v),OrderAt[dest[v]])
     /\ SumSeq([k \in 1..8 |-> ShiftIn(img(CornerSeq[k]),OrderAt[dest[CornerSeq[k]]])]) % 3 = 0
     /\ SumSeq([k \in 1..12 |-> ShiftIn(img(EdgeSeq[k]),OrderAt[dest[EdgeSeq[k]]])]) % 2 = 0
     /\ ParityOf([v \in CornerPos |-> dest[v]],CornerPos) = ParityOf([v \in EdgePos |-> dest[v]],EdgePos)
InvPerm(p) == [i \in DOMAIN p |-> CHOOSE j \in DOMAIN p : p[j] = i]
FaceTurns == TLCEval([f \in 1..6 |-> TurnPerm(FaceNormals[f])])

-----------------------------------------------------------------------------
(* defining relations *)
SympJ(m,sc) == [i \in 1..(2*m) |-> [j \in 1..(2*m) |-> IF j = i+m THEN <<sc,0>> ELSE IF i = j+m THEN <<-sc,0>> ELSE <<0,0>>]]
LorJ(n,sc) == [i \in 1..n |-> [j \in 1..n |-> IF i # j THEN <<0,0>> ELSE IF i = 1 THEN <<-sc,0>> ELSE <<sc,0>>]]
FormOf(t,sc) == CASE t.c = "Sp" -> SympJ(t.a,sc) [] t.c \in LorType -> LorJ(Dim(t),sc) [] OTHER -> IdN(Dim(t),sc)
HasForm(t) == t.c \in LorType \cup OrthType \cup {"Sp","U","SU"}
Adj(t,A) == IF t.c \in {"U","SU"} THEN HermN(A) ELSE TrN(A)
\* the Lie algebra element preserves the form, is traceless where it must be
TraceN(A) == SumC([i \in DOMAIN A |-> A[i][i]])
LieMember(t,A,sc,tol) ==
  /\ t.c \notin {"U","SU"} => RealN(A)
  /\ HasForm(t) => LET J == FormOf(t,1) IN NearN(AddN(MulN(Adj(t,A),J,1),MulN(J,A,1)), ZeroN(Dim(t)), tol)
  /\ t.c \in {"SL","SU"} => NearC(TraceN(A),<<0,0>>,tol)
  /\ t.c = "Sca" => NearN(A,[i \in DOMAIN A |-> [j \in DOMAIN A |-> IF i = j THEN A[1][1] ELSE <<0,0>>]],tol)
  /\ LieDim(t) = 0 => NearN(A,ZeroN(Dim(t)),tol)
\* rotation by 2 pi / k at scale S0
CosN == 1 :> <<5040,0>> @@ 2 :> <<-5040,0>> @@ 3 :> <<-2520,4365>> @@ 4 :> <<0,5040>> @@ 5 :> <<1557,4793>> @@ 6 :> <<2520,4365>>
     @@ 7 :> <<3142,3940>> @@ 8 :> <<3564,3564>> @@ 9 :> <<3861,3240>> @@ 10 :> <<4077,2962>> @@ 11 :> <<4240,2725>> @@ 12 :> <<4365,2520>>
     @@ 15 :> <<4604,2050>> @@ 60 :> <<5012,527>>
RotN(k) == << << <<CosN[k][1],0>>,<<CosN[k][2],0>> >>, << <<-CosN[k][2],0>>,<<CosN[k][1],0>> >> >>
RotTab == TLCEval([k \in DOMAIN CosN |->              \* rotations by 0, 1, .., k-1 steps
   FoldLeft(LAMBDA acc,j : TLCEval(Append(acc,MulN(acc[j-1],RotN(k),S0))), <<IdN(2,S0)>>, [j \in 1..(k-1) |-> j+1])])
Rots(k) == RotTab[k]
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b,a % b)
FlipN == << << <<-S0,0>>,<<0,0>> >>, << <<0,0>>,<<S0,0>> >> >>
RotTol(k) == IF k <= 12 THEN 25 ELSE 80
\* index j of the rotation A is near to (or -1)
RotIdx(A,k) == LET R == Rots(k) js == {j \in 1..k : NearN(A,R[j],RotTol(k))} IN IF js = {} THEN -1 ELSE (CHOOSE j \in js : TRUE)-1
\* sign of the time component and of the determinant
SignRe(z) == IF z[1] > 0 THEN 1 ELSE -1
CompOf(t,A,sc) == IF t.c \in LorType THEN <<SignRe(A[1][1]), SignDet(A,sc)>>
                  ELSE IF t.c = "O" THEN <<SignDet(A,sc),1>> ELSE <<1,1>>
CompsOf(t) == CASE t.c = "O" -> {<<1,1>>,<<-1,1>>}
                [] t.c = "SO13" -> {<<1,1>>,<<-1,1>>}
                [] t.c \in {"O13","Lor","O11"} -> {1,-1} \X {1,-1}
                [] OTHER -> {<<1,1>>}
GroupMember(t,A,sc) ==
  LET n == Dim(t)
      tf == TolForm(A,sc)
  IN /\ t.c \notin {"U","SU"} => RealN(A)
     /\ HasForm(t) => LET J == FormOf(t,sc) IN NearN(MulN(MulN(Adj(t,A),J,sc),A,sc), J, tf)
     /\ t.c \in {"SO","SL","SU"} => UnitDet(A,sc)
     /\ t.c \in {"O"} \cup LorType => \E c \in CompsOf(t) : LET d == CompOf(t,A,sc) IN c = d \/ (0 \in {d[1],d[2]} /\ \A k \in {1,2} : d[k] \in {0,c[k]})
     /\ t.c = "GL" => n > 2 \/ MaxAbs(A) > 3*sc \/ DetN(RescaleN(A,sc,Min({sc,1000})),1,1..n,Min({sc,1000})) # <<0,0>>
     /\ t.c = "Sca" => A[1][1][1] > 0 /\ NearN(A,[i \in 1..n |-> [j \in 1..n |-> IF i = j THEN A[1][1] ELSE <<0,0>>]],tf)
     /\ t.c = "Tri" => NearN(A,IdN(n,sc),2)
     /\ t.c = "Par" => NearN(A,IdN(4,sc),2) \/ NearN(A,[i \in 1..4 |-> [j \in 1..4 |-> IF i # j THEN <<0,0>> ELSE IF i = 1 THEN <<sc,0>> ELSE <<-sc,0>>]],2)
     /\ t.c = "TR" => NearN(A,IdN(4,sc),2) \/ NearN(A,[i \in 1..4 |-> [j \in 1..4 |-> IF i # j THEN <<0,0>> ELSE IF i = 1 THEN <<-sc,0>> ELSE <<sc,0>>]],2)
     /\ t.c = "C" => RotIdx(RescaleN(A,sc,S0),t.a) >= 0
     /\ t.c = "D" => LET B == RescaleN(A,sc,S0) IN RotIdx(B,t.a) >= 0 \/ RotIdx(MulN(FlipN,B,S0),t.a) >= 0
     /\ t.c \in PermType => IsPermN(A,sc,2)
     /\ t.c = "Z" => LET p == PermOf(A,sc) IN \A i \in 1..n : p[i] = ((p[1]-1 + i-1) % n)+1
     /\ t.c = "Cube" => PermOf(A,sc) \in CubeElems
     /\ t.c = "Rub" => RubikMember(PermOf(A,sc))
     /\ t.c = "Zks" => PermOf(A,sc) \in Closure(PermsOfDef(DefZks(t.a,t.b)),n)
\* user defined groups: only what their generators say
UserShear(t,A,sc) == TRUE

-----------------------------------------------------------------------------
(* do these generators generate all of a basic group? *)
ResidN(A) == FlattenSeq([i \in DOMAIN A |-> [j \in DOMAIN A[1] |-> ((A[i][j][1] % P) + Iota*(A[i][j][2] % P)) % P]])
RECURSIVE ElimD(_,_,_,_)
ElimD(rows,i,B,n) == IF i > Len(rows) THEN B
   ELSE LET rr == Reduce(rows[i],B,1,n) IN ElimD(rows,i+1, IF rr[1] = 0 THEN B ELSE TLCEval((rr[1] :> rr[2]) @@ B), n)
RankN(lies) == IF lies = <<>> THEN 0 ELSE LET n == Len(lies[1])*Len(lies[1]) IN Cardinality(DOMAIN ElimD([k \in DOMAIN lies |-> TLCEval(ResidN(lies[k]))],1,<<>>,n))
RECURSIVE SignClosure(_,_)
SignClosure(S,gens) == LET T == S \cup {<<s[1]*g[1],s[2]*g[2]>> : s \in S, g \in gens} IN IF T = S THEN S ELSE SignClosure(T,gens)
AllRots(t,discs) == {RotIdx(discs[k],t.a) : k \in DOMAIN discs}
Complete(t,lies,discs) ==
  /\ RankN(lies) = LieDim(t)
  /\ t.c \in {"O"} \cup LorType => SignClosure({<<1,1>>},{CompOf(t,discs[k],S0) : k \in DOMAIN discs}) = CompsOf(t)
  /\ t.c \in {"Par","TR"} => \E k \in DOMAIN discs : ~NearN(discs[k],IdN(4,S0),2)
  /\ t.c \in {"C","D"} => FoldSet(LAMBDA j,g : Gcd(j,g), t.a, {j \in AllRots(t,discs) : j >= 0}) = 1
  /\ t.c = "D" => \E k \in DOMAIN discs : RotIdx(MulN(FlipN,discs[k],S0),t.a) >= 0
  /\ t.c = "S" => Cardinality(Closure({PermOf(discs[k],S0) : k \in DOMAIN discs},t.a)) = Fact(t.a)
  /\ t.c = "Z" => Cardinality(Closure({PermOf(discs[k],S0) : k \in DOMAIN discs},t.a)) = t.a
  /\ t.c = "Cube" => Closure({PermOf(discs[k],S0) : k \in DOMAIN discs},6) = CubeElems
  /\ t.c = "Zks" => Cardinality(Closure({PermOf(discs[k],S0) : k \in DOMAIN discs},Dim(t))) = Cardinality(Closure(PermsOfDef(DefZks(t.a,t.b)),Dim(t)))
  /\ t.c = "Rub" => LET ps == {PermOf(discs[k],S0) : k \in DOMAIN discs}
                    IN \A f \in 1..6 : FaceTurns[f] \in ps \/ InvPerm(FaceTurns[f]) \in ps
BasicGroup(t,lies,discs) ==
  /\ \A k \in DOMAIN lies : LieMember(t,lies[k],S0,2)
  /\ \A k \in DOMAIN discs : GroupMember(t,discs[k],S0)

-----------------------------------------------------------------------------
(* embeddings and products *)
EmbIdx(t) == [k \in 1..Dim(t.s[1]) |-> t.b + (k-1)*t.st + 1]
BlockN(A,idx) == TLCEval([i \in DOMAIN idx |-> [j \in DOMAIN idx |-> A[idx[i]][idx[j]]]])
EmbOutside(t,A,one,tol) == LET I == Range(EmbIdx(t)) IN
   \A i,j \in 1..t.a : (i \notin I \/ j \notin I) => NearC(A[i][j], IF i = j THEN <<one,0>> ELSE <<0,0>>, tol)
\* A = B (x) 1 and A = 1 (x) C
LeftPart(A,n,m) == TLCEval([i \in 1..n |-> [j \in 1..n |-> A[(i-1)*m+1][(j-1)*m+1]]])
RightPart(A,n,m) == TLCEval([i \in 1..m |-> [j \in 1..m |-> A[i][j]]])
IsLeft(A,n,m,tol) == LET L == LeftPart(A,n,m) IN
   \A i,j \in 1..(n*m) : NearC(A[i][j], IF (i-1) % m = (j-1) % m THEN L[((i-1) \div m)+1][((j-1) \div m)+1] ELSE <<0,0>>, tol)
IsRight(A,n,m,tol) == LET R == RightPart(A,n,m) IN
   \A i,j \in 1..(n*m) : NearC(A[i][j], IF (i-1) \div m = (j-1) \div m THEN R[((i-1) % m)+1][((j-1) % m)+1] ELSE <<0,0>>, tol)
RECURSIVE InAlgebra(_,_)
InAlgebra(t,A) == CASE t.c = "Emb" -> EmbOutside(t,A,0,1) /\ InAlgebra(t.s[1],BlockN(A,EmbIdx(t)))
   [] t.c = "Prod" -> LET n == Dim(t.s[1]) m == Dim(t.s[2]) IN
         \/ IsLeft(A,n,m,1) /\ InAlgebra(t.s[1],LeftPart(A,n,m))
         \/ IsRight(A,n,m,1) /\ InAlgebra(t.s[2],RightPart(A,n,m))
   [] OTHER -> LieMember(t,A,S0,2)
RECURSIVE InGroup(_,_)
InGroup(t,A) == CASE t.c = "Emb" -> EmbOutside(t,A,S0,1) /\ InGroup(t.s[1],BlockN(A,EmbIdx(t)))
   [] t.c = "Prod" -> LET n == Dim(t.s[1]) m == Dim(t.s[2]) IN
         \/ IsLeft(A,n,m,1) /\ InGroup(t.s[1],LeftPart(A,n,m))
         \/ IsRight(A,n,m,1) /\ InGroup(t.s[2],RightPart(A,n,m))
   [] OTHER -> GroupMember(t,A,S0)
RECURSIVE Generates(_,_,_)
Generates(t,lies,discs) ==
  CASE t.c = "Emb" -> Generates(t.s[1], [k \in DOMAIN lies |-> BlockN(lies[k],EmbIdx(t))], [k \in DOMAIN discs |-> BlockN(discs[k],EmbIdx(t))])
    [] t.c = "Prod" ->
       LET n == Dim(t.s[1])
           m == Dim(t.s[2])
           L(s) == LET x == SelectSeq(s, LAMBDA A : IsLeft(A,n,m,1)) IN [k \in DOMAIN x |-> LeftPart(x[k],n,m)]
           R(s) == LET x == SelectSeq(s, LAMBDA A : IsRight(A,n,m,1)) IN [k \in DOMAIN x |-> RightPart(x[k],n,m)]
       IN /\ Generates(t.s[1], SelectSeq(L(lies),LAMBDA A : InAlgebra(t.s[1],A)), SelectSeq(L(discs),LAMBDA A : InGroup(t.s[1],A)))
          /\ Generates(t.s[2], SelectSeq(R(lies),LAMBDA A : InAlgebra(t.s[2],A)), SelectSeq(R(discs),LAMBDA A : InGroup(t.s[2],A)))
    [] OTHER -> Complete(t,lies,discs)
\* the flags, decided on the generators
OrthGens(lies,discs) == /\ \A k \in DOMAIN discs : LET A == discs[k] IN NearN(MulN(TrN(A),A,S0),IdN(Len(A),S0),TolForm(A,S0))
                        /\ \A k \in DOMAIN lies : NearN(AddN(TrN(lies[k]),lies[k]),ZeroN(Len(lies[k])),2)
PermGens(lies,discs) == lies = <<>> /\ \A k \in DOMAIN discs : IsPermN(discs[k],S0,1)
=============================================================================
