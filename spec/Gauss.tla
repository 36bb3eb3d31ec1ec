-------------------------------- MODULE Gauss --------------------------------
(* Exact matrices over the Gaussian integers: sequences of rows of entries   *)
(* <<re, im>>.                                                                *)
EXTENDS Num
CMul(z,w) == <<z[1]*w[1]-z[2]*w[2], z[1]*w[2]+z[2]*w[1]>>
CAdd(z,w) == <<z[1]+w[1],z[2]+w[2]>>
CSum(s) == FoldLeft(CAdd, <<0,0>>, s)
GRows(A) == Len(A)
GMul(A,B,cols) == TLCEval([i \in DOMAIN A |-> [j \in 1..cols |-> CSum([k \in DOMAIN B |-> IF A[i][k] = <<0,0>> THEN <<0,0>> ELSE CMul(A[i][k],B[k][j])])]])
GAdd(A,B) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> CAdd(A[i][j],B[i][j])]])
GScale(c,A) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> CMul(c,A[i][j])]])
GT(A) == TLCEval([j \in DOMAIN A[1] |-> [i \in DOMAIN A |-> A[i][j]]])
GConj(A) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> <<A[i][j][1],-A[i][j][2]>>]])
GH(A) == GT(GConj(A))
GId(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1,0>> ELSE <<0,0>>]])
GKron(A,B) == LET rb == Len(B) cb == Len(B[1]) IN
   TLCEval([i \in 1..(Len(A)*rb) |-> [j \in 1..(Len(A[1])*cb) |-> CMul(A[((i-1) \div rb)+1][((j-1) \div cb)+1], B[((i-1) % rb)+1][((j-1) % cb)+1])]])
GKronsum(A,B) == GAdd(GKron(A,GId(Len(B))),GKron(GId(Len(A)),B))
GBlock(A,B) == LET n == Len(A) m == Len(A[1]) IN
   TLCEval([i \in 1..(n+Len(B)) |-> [j \in 1..(m+Len(B[1])) |->
       IF i <= n /\ j <= m THEN A[i][j] ELSE IF i > n /\ j > m THEN B[i-n][j-m] ELSE <<0,0>>]])
GMax(A) == Max({Abs(A[i][j][k]) : i \in DOMAIN A, j \in DOMAIN A[1], k \in {1,2}})
\* the matrix of a map of coordinates: (A v)[i] = v[p[i]]
GPerm(p) == TLCEval([i \in DOMAIN p |-> [j \in DOMAIN p |-> IF p[i] = j THEN <<1,0>> ELSE <<0,0>>]])
\* inverse transpose of a small matrix whose determinant is a unit, <<>> otherwise: cofactors over the determinant
CNeg(z) == <<-z[1],-z[2]>>
Minor2(A,r,c) == CAdd(CMul(A[r[1]][c[1]],A[r[2]][c[2]]), CNeg(CMul(A[r[1]][c[2]],A[r[2]][c[1]])))
Rest(i) == CASE i = 1 -> <<2,3>> [] i = 2 -> <<1,3>> [] i = 3 -> <<1,2>>
Cofactors(A) == CASE Len(A) = 1 -> << << <<1,0>> >> >>
   [] Len(A) = 2 -> << <<A[2][2],CNeg(A[2][1])>>, <<CNeg(A[1][2]),A[1][1]>> >>
   [] Len(A) = 3 -> TLCEval([i \in 1..3 |-> [j \in 1..3 |-> IF (i+j) % 2 = 0 THEN Minor2(A,Rest(i),Rest(j)) ELSE CNeg(Minor2(A,Rest(i),Rest(j)))]])
UnitInv(al) == CASE al = <<1,0>> -> <<1,0>> [] al = <<-1,0>> -> <<-1,0>> [] al = <<0,1>> -> <<0,-1>> [] al = <<0,-1>> -> <<0,1>> [] OTHER -> <<0,0>>
GInvT(A) == IF Len(A) # Len(A[1]) \/ Len(A) > 3 THEN <<>>
            ELSE LET K == Cofactors(A)
                     d == UnitInv(CSum([j \in DOMAIN A |-> CMul(A[1][j],K[1][j])]))
                 IN IF d = <<0,0>> THEN <<>> ELSE GScale(d,K)
RECURSIVE GPow(_,_)
GPow(A,p) == IF p = 0 THEN GId(Len(A)) ELSE GMul(A,GPow(A,p-1),Len(A))
=============================================================================
