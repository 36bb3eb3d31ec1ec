------------------------------- MODULE Groups -------------------------------
(* The groups of the library, defined independently of it: generators of the *)
(* finite part and a basis of the Lie algebra, as matrices with entries      *)
(* (a + b i) / sc, and the same matrices exactly modulo P.                   *)
(* A generator is [p |-> rows of <<col, residue>>, x |-> rows of             *)
(* <<col, a, b>>].                                                           *)
EXTENDS Num

\* a matrix from a set of entries <<row, col, a, b>>
FromSet(n,S) == TLCEval([r \in 1..n |->
    LET row == {e \in S : e[1] = r}
        cs == SetToSortSeq({e[2] : e \in row}, <)
    IN [t \in 1..Len(cs) |-> LET e == CHOOSE e \in row : e[2] = cs[t] IN <<e[2],e[3],e[4]>>]])
Resid(X) == TLCEval([r \in DOMAIN X |-> [t \in DOMAIN X[r] |-> <<X[r][t][1], ((X[r][t][2] % P) + Iota*(X[r][t][3] % P)) % P>>]])
\* exact Gaussian integer matrix
Exact(n,S) == LET X == FromSet(n,S) IN [p |-> Resid(X), x |-> X]
Re(n,S) == Exact(n, {<<e[1],e[2],e[3],0>> : e \in S})
PermM(f) == Re(Len(f), {<<k,f[k],1>> : k \in 1..Len(f)})
DiagM(s) == Re(Len(s), {<<k,k,s[k]>> : k \in 1..Len(s)})
Def(d,disc,lie) == [d |-> d, sc |-> 1, disc |-> disc, lie |-> lie]
ListOf(S) == SetToSeq(S)
Pairs(n) == {q \in (1..n) \X (1..n) : q[1] < q[2]}

SkewL(n) == ListOf({Re(n, {<<q[1],q[2],1>>,<<q[2],q[1],-1>>}) : q \in Pairs(n)})
DefTrivial(n) == Def(n,<<>>,<<>>)
DefSO(n) == Def(n,<<>>,SkewL(n))
DefO(n) == Def(n,<<DiagM([k \in 1..n |-> IF k = n THEN -1 ELSE 1])>>,SkewL(n))
DefS(n) == Def(n,[t \in 1..(n-1) |-> PermM([k \in 1..n |-> IF k = t THEN t+1 ELSE IF k = t+1 THEN t ELSE k])],<<>>)
DefZ(n) == Def(n,<<PermM([k \in 1..n |-> (k % n)+1])>>,<<>>)
\* rotations by 2 pi / k: cosines and sines times RS, exactly as roots of unity mod P
RS == 30000
CosT == 1 :> 30000 @@ 2 :> -30000 @@ 3 :> -15000 @@ 4 :> 0 @@ 5 :> 9271 @@ 6 :> 15000 @@ 8 :> 21213 @@ 60 :> 29836 @@ 420 :> 29997
SinT == 1 :> 0 @@ 2 :> 0 @@ 3 :> 25981 @@ 4 :> 30000 @@ 5 :> 28532 @@ 6 :> 25981 @@ 8 :> 21213 @@ 60 :> 3136 @@ 420 :> 449
RotM(k) ==
  LET z == Root(k)
      zi == Inv(z)
      h == Inv(2)
      c == (((z+zi) % P)*h) % P
      s == (((z+P-zi) % P)*((h*Inv(Iota)) % P)) % P
      row(j,es) == SelectSeq(es, LAMBDA e : e[2] # 0)
  IN [p |-> << row(1,<< <<1,c>>,<<2,s>> >>), row(2,<< <<1,(P-s)%P>>,<<2,c>> >>) >>,
      x |-> << << <<1,CosT[k],0>>,<<2,SinT[k],0>> >>, << <<1,-SinT[k],0>>,<<2,CosT[k],0>> >> >>]
FlipM == [p |-> << << <<1,P-1>> >>, << <<2,1>> >> >>, x |-> << << <<1,-RS,0>> >>, << <<2,RS,0>> >> >>]
DefC(k) == [d |-> 2, sc |-> RS, disc |-> <<RotM(k)>>, lie |-> <<>>]
DefD(k) == [d |-> 2, sc |-> RS, disc |-> <<RotM(k),FlipM>>, lie |-> <<>>]
DefScaling(n) == Def(n,<<>>,<<DiagM([k \in 1..n |-> 1])>>)
DefParity == Def(4,<<DiagM(<<1,-1,-1,-1>>)>>,<<>>)
DefTime == Def(4,<<DiagM(<<-1,1,1,1>>)>>,<<>>)
\* so(1,n): boosts are symmetric, rotations skew
LorL(n) == ListOf({Re(n+1, {<<1,k,1>>,<<k,1,1>>}) : k \in 2..(n+1)}
              \cup {Re(n+1, {<<q[1]+1,q[2]+1,1>>,<<q[2]+1,q[1]+1,-1>>}) : q \in Pairs(n)})
DefSO13p == Def(4,<<>>,LorL(3))
DefSO13 == Def(4,<<DiagM(<<-1,-1,-1,-1>>)>>,LorL(3))
DefO13 == Def(4,<<DiagM(<<-1,-1,-1,-1>>),DiagM(<<-1,1,1,1>>)>>,LorL(3))
DefSO11p == Def(2,<<>>,LorL(1))
DefO11 == Def(2,<<DiagM(<<-1,-1>>),DiagM(<<-1,1>>)>>,LorL(1))
DefGL(n) == Def(n,<<>>,ListOf({Re(n,{<<q[1],q[2],1>>}) : q \in (1..n) \X (1..n)}))
DefSL(n) == Def(n,<<>>,ListOf({Re(n,{<<q[1],q[2],1>>}) : q \in {q \in (1..n) \X (1..n) : q[1] # q[2]}}
                       \cup {Re(n,{<<k,k,1>>,<<n,n,-1>>}) : k \in 1..(n-1)}))
DefSp(m) == LET n == 2*m IN Def(n,<<>>,ListOf(
      {Re(n,{<<q[1],q[2],1>>,<<m+q[2],m+q[1],-1>>}) : q \in (1..m) \X (1..m)}
   \cup {Re(n,{<<m+q[1],q[2],1>>,<<m+q[2],q[1],1>>}) : q \in {q \in (1..m) \X (1..m) : q[1] <= q[2]}}
   \cup {Re(n,{<<q[1],m+q[2],1>>,<<q[2],m+q[1],1>>}) : q \in {q \in (1..m) \X (1..m) : q[1] <= q[2]}}))
DefSU(n) == Def(n,<<>>,ListOf(
      {Re(n,{<<q[1],q[2],1>>,<<q[2],q[1],-1>>}) : q \in Pairs(n)}
   \cup {Exact(n,{<<q[1],q[2],0,1>>,<<q[2],q[1],0,1>>}) : q \in Pairs(n)}
   \cup {Exact(n,{<<k,k,0,1>>,<<n,n,0,-1>>}) : k \in 1..(n-1)}))
DefU(n) == Def(n,<<>>,Append(DefSU(n).lie, Exact(n,{<<n,n,0,1>>})))
\* rotations of the cube acting on its faces U,F,R,B,L,D
CycM(n,c) == PermM([k \in 1..n |-> IF k \in Range(c) THEN LET i == CHOOSE i \in DOMAIN c : c[i] = k IN c[(i % Len(c))+1] ELSE k])
DefCube == Def(6,<<CycM(6,<<1,3,6,5>>),CycM(6,<<1,2,6,4>>),CycM(6,<<2,3,4,5>>)>>,<<>>)
\* the 48 stickers of the 3x3x3 cube in space: x right, y up, z front; faces U,F,R,B,L,D, each read row by row
Sticker(s) ==   \* s in 0..47 -> <<position, outward normal>>
  LET f == s \div 8
      q == s % 8
      w == IF q < 4 THEN q ELSE q+1
      r == w \div 3
      c == w % 3
  IN CASE f = 0 -> << <<c-1,1,r-1>>, <<0,1,0>> >>
       [] f = 1 -> << <<c-1,1-r,1>>, <<0,0,1>> >>
       [] f = 2 -> << <<1,1-r,1-c>>, <<1,0,0>> >>
       [] f = 3 -> << <<1-c,1-r,-1>>, <<0,0,-1>> >>
       [] f = 4 -> << <<-1,1-r,c-1>>, <<-1,0,0>> >>
       [] f = 5 -> << <<c-1,-1,1-r>>, <<0,-1,0>> >>
Dot3(a,b) == a[1]*b[1]+a[2]*b[2]+a[3]*b[3]
Cross3(a,b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
\* quarter turn about the axis n: the component along n stays, the rest is n x v
Quarter(n,v) == LET k == Dot3(n,v)
                    w == Cross3(n,v)
                IN <<n[1]*k+w[1], n[2]*k+w[2], n[3]*k+w[3]>>
StickerTab == TLCEval([s \in 0..47 |-> Sticker(s)])
StickerAt(x) == CHOOSE s \in 0..47 : StickerTab[s] = x
FaceNormals == << <<0,1,0>>,<<0,0,1>>,<<1,0,0>>,<<0,0,-1>>,<<-1,0,0>>,<<0,-1,0>> >>
TurnPerm(n) == TLCEval([k \in 1..48 |-> LET x == StickerTab[k-1] IN
                IF Dot3(x[1],n) = 1 THEN StickerAt(<<Quarter(n,x[1]),Quarter(n,x[2])>>)+1 ELSE k])
DefRubik == Def(48,[f \in 1..6 |-> PermM(TurnPerm(FaceNormals[f]))],<<>>)
\* translations of an n x n image and rotation by 360/k of it, acting on k channels: coordinate (c,x,y)
ImgIdx(n,c,x,y) == (c*n + x)*n + y + 1
ImgPerm(k,n,f(_,_,_)) == PermM([j \in 1..(k*n*n) |->
     LET c == (j-1) \div (n*n)
         x == ((j-1) \div n) % n
         y == (j-1) % n
         t == f(c,x,y)
     IN ImgIdx(n,t[1],t[2],t[3])])
DefZks(k,n) ==
  Def(k*n*n, <<ImgPerm(k,n,LAMBDA c,x,y : <<c,(x+1)%n,y>>), ImgPerm(k,n,LAMBDA c,x,y : <<c,x,(y+1)%n>>),
    \* quarter or half turn of the image; the channels are shifted the way the library shifts them (see ZksTurn)
    ImgPerm(k,n,LAMBDA c,x,y : IF k = 4 THEN <<(c+3)%4,y,n-1-x>> ELSE <<(c+1)%2,n-1-x,n-1-y>>)>>,<<>>)
\* embedding on coordinates lo+1..lo+G.d of d dimensions, identity elsewhere
EmbX(M,lo,d,fill,one(_)) == TLCEval([r \in 1..d |-> IF r > lo /\ r <= lo + Len(M)
     THEN [t \in DOMAIN M[r-lo] |-> [M[r-lo][t] EXCEPT ![1] = @ + lo]]
     ELSE IF fill THEN << one(r) >> ELSE <<>>])
EmbGen(g,lo,d,fill,sc) == [p |-> EmbX(g.p,lo,d,fill,LAMBDA r : <<r,1>>), x |-> EmbX(g.x,lo,d,fill,LAMBDA r : <<r,sc,0>>)]
DefEmbed(G,lo,d) == [d |-> d, sc |-> G.sc, disc |-> [k \in DOMAIN G.disc |-> EmbGen(G.disc[k],lo,d,TRUE,G.sc)],
                     lie |-> [k \in DOMAIN G.lie |-> EmbGen(G.lie[k],lo,d,FALSE,G.sc)]]
\* numeric Kronecker product with an identity
KronXI(X,n) == LET m == Len(X) IN TLCEval([r \in 1..(m*n) |-> LET i1 == ((r-1) \div n)+1
                                                      i2 == ((r-1) % n)+1
     IN [t \in DOMAIN X[i1] |-> <<(X[i1][t][1]-1)*n + i2, X[i1][t][2], X[i1][t][3]>>]])
KronIX(n,X) == LET m == Len(X) IN TLCEval([r \in 1..(n*m) |-> LET i1 == ((r-1) \div m)+1
                                                      i2 == ((r-1) % m)+1
     IN [t \in DOMAIN X[i2] |-> <<(i1-1)*m + X[i2][t][1], X[i2][t][2], X[i2][t][3]>>]])
\* direct product of two groups acting on the tensor product of their spaces (integral groups)
DefTimes(A,B) == [d |-> A.d*B.d, sc |-> 1,
   disc |-> [k \in DOMAIN A.disc |-> LET X == KronXI(A.disc[k].x,B.d) IN [p |-> Resid(X), x |-> X]]
         \o [k \in DOMAIN B.disc |-> LET X == KronIX(A.d,B.disc[k].x) IN [p |-> Resid(X), x |-> X]],
   lie |-> [k \in DOMAIN A.lie |-> LET X == KronXI(A.lie[k].x,B.d) IN [p |-> Resid(X), x |-> X]]
         \o [k \in DOMAIN B.lie |-> LET X == KronIX(A.d,B.lie[k].x) IN [p |-> Resid(X), x |-> X]]]

\* properties of a definition
SpHerm(X,n) == \* numeric conjugate transpose
   [j \in 1..n |-> LET is == SetToSortSeq({i \in DOMAIN X : \E t \in DOMAIN X[i] : X[i][t][1] = j}, <)
                   IN [u \in 1..Len(is) |-> LET e == CHOOSE e \in Range(X[is[u]]) : e[1] = j IN <<is[u],e[2],-e[3]>>]]
IsComplex(D) == \E g \in Range(D.lie) \cup Range(D.disc) : \E r \in DOMAIN g.x : \E t \in DOMAIN g.x[r] : g.x[r][t][3] # 0
\* orthogonal: discrete generators M with M^T M = 1, Lie algebra skew (no conjugation)
OrthDef(D) == /\ \A g \in Range(D.disc) : RowsEq(SpMul(SpT(g.p,D.d),g.p), SpId(D.d))
              /\ \A g \in Range(D.lie) : RowsEq(SpT(g.p,D.d), SpNeg(g.p))
PermDef(D) == /\ D.lie = <<>>
              /\ \A g \in Range(D.disc) : \A r \in DOMAIN g.p : Len(g.p[r]) = 1 /\ g.p[r][1][2] = 1
=============================================================================
