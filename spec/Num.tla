-------------------------------- MODULE Num --------------------------------
(* Arithmetic used by every specification: integers modulo a prime P with    *)
(* P*P < 2^31 (TLC integers are 32 bit), sparse matrices as sequences of     *)
(* rows, a row being a sequence of <<column, value>> with increasing column  *)
(* and no zero value, and Gaussian elimination.  P = 1 mod 840, so that      *)
(* square roots of -1 and k-th roots of unity (k | 840) exist: Gaussian      *)
(* integers a+bi are represented by a + b*Iota mod P.                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC

P == 45361

RECURSIVE PowMod(_,_)
PowMod(b,e) == IF e = 0 THEN 1
               ELSE LET h == PowMod(b, e \div 2)
                        s == (h*h) % P
                    IN IF e % 2 = 1 THEN (s*(b % P)) % P ELSE s
Inv(x) == PowMod(x % P, P-2)
\* a generator of the multiplicative group: its powers by (P-1)/q must not be 1
PrimRoot == CHOOSE g \in 2..100 : \A q \in {2,3,5,7} : PowMod(g, (P-1) \div q) # 1
Root(k) == PowMod(PrimRoot, (P-1) \div k)        \* primitive k-th root of unity
Iota == Root(4)
ASSUME (Iota*Iota) % P = P-1

Abs(x) == IF x < 0 THEN -x ELSE x
SumSeq(s) == FoldLeft(LAMBDA a,b : a+b, 0, s)
SumSeqP(s) == FoldLeft(LAMBDA a,b : (a+b) % P, 0, s)

-----------------------------------------------------------------------------
(* Sparse matrices mod P *)
SpId(n) == [i \in 1..n |-> << <<i,1>> >>]
SpEntry(M,i,j) == LET h == SelectSeq(M[i], LAMBDA x : x[1] = j) IN IF h = <<>> THEN 0 ELSE h[1][2]
SpKron(A,B) ==
  LET rb == Len(B) ra == Len(A) IN
  TLCEval([i \in 1..(ra*rb) |->
     LET r == A[((i-1) \div rb)+1]
         s == B[((i-1) % rb)+1]
         ls == Len(s)
     IN [t \in 1..(Len(r)*ls) |->
           LET x == r[((t-1) \div ls)+1]
               y == s[((t-1) % ls)+1]
           IN << (x[1]-1)*rb + y[1], (x[2]*y[2]) % P >> ]])
SpSum(A,B) ==
  LET ra == Len(A) IN
  TLCEval(A \o [i \in 1..Len(B) |-> [t \in 1..Len(B[i]) |-> << B[i][t][1]+ra, B[i][t][2] >>]])
\* rows given as bags of pairs (repeated columns allowed) -> normalized row as a function
RowFun(r) ==
  LET cs == {r[t][1] : t \in DOMAIN r}
      f == [j \in cs |-> SumSeqP([t \in DOMAIN r |-> IF r[t][1] = j THEN r[t][2] % P ELSE 0])]
  IN [j \in {c \in cs : f[c] # 0} |-> f[j]]
RowsEq(A,B) == /\ DOMAIN A = DOMAIN B
               /\ \A i \in DOMAIN A : RowFun(A[i]) = RowFun(B[i])
\* normalize a row to increasing columns
NormRow(r) == LET f == RowFun(r)
              IN [t \in 1..Cardinality(DOMAIN f) |-> LET c == SetToSortSeq(DOMAIN f, <)[t] IN <<c, f[c]>>]
SpNorm(A) == TLCEval([i \in DOMAIN A |-> NormRow(A[i])])
SpT(A,n) ==  \* transpose, n columns
  TLCEval([j \in 1..n |->
     LET is == {i \in DOMAIN A : \E t \in DOMAIN A[i] : A[i][t][1] = j}
         s == SetToSortSeq(is, <)
     IN [t \in 1..Len(s) |-> << s[t], SpEntry(A,s[t],j) >>]])
SpMul(A,B) ==
  TLCEval([i \in DOMAIN A |-> NormRow(FlattenSeq([t \in DOMAIN A[i] |->
      [u \in DOMAIN B[A[i][t][1]] |-> << B[A[i][t][1]][u][1], (A[i][t][2]*B[A[i][t][1]][u][2]) % P >>]]))])
SpScale(c,A) == [i \in DOMAIN A |-> [t \in DOMAIN A[i] |-> <<A[i][t][1], (c*A[i][t][2]) % P>>]]
SpNeg(A) == SpScale(P-1,A)
SpAdd(A,B) == TLCEval([i \in DOMAIN A |-> NormRow(A[i] \o B[i])])
\* A (x) I + I (x) B, rows not normalized (repeated columns allowed)
SpKronSum(A,B) ==
  LET rb == Len(B) ra == Len(A) IN
  TLCEval([i \in 1..(ra*rb) |->
     LET i1 == ((i-1) \div rb)+1
         i2 == ((i-1) % rb)+1
     IN  [t \in DOMAIN A[i1] |-> << (A[i1][t][1]-1)*rb + i2, A[i1][t][2] >>]
      \o [t \in DOMAIN B[i2] |-> << (i1-1)*rb + B[i2][t][1], B[i2][t][2] >>]])
\* well formed n x n sparse matrix as found in a trace
IsSp(A,n) == /\ DOMAIN A = 1..n
             /\ \A i \in 1..n : \A t \in DOMAIN A[i] : A[i][t][1] \in 1..n /\ A[i][t][2] \in 0..(P-1)
\* apply to a vector of residues
SpApply(A,x) == [i \in DOMAIN A |-> SumSeqP([t \in DOMAIN A[i] |-> (A[i][t][2]*x[A[i][t][1]]) % P])]

-----------------------------------------------------------------------------
(* Gaussian elimination mod P on dense rows *)
Dense(r,n) == LET f == RowFun(r) IN [j \in 1..n |-> IF j \in DOMAIN f THEN f[j] ELSE 0]
RECURSIVE Reduce(_,_,_,_)
Reduce(r,B,c,n) ==
   IF c > n THEN <<0,r>>
   ELSE IF r[c] = 0 THEN Reduce(r,B,c+1,n)
   ELSE IF c \in DOMAIN B
        THEN LET b == B[c]
                 f == P - r[c]
             IN Reduce(TLCEval([j \in 1..n |-> IF j < c THEN 0 ELSE (r[j] + f*b[j]) % P]), B, c+1, n)
   ELSE LET iv == Inv(r[c]) IN <<c, TLCEval([j \in 1..n |-> (iv*r[j]) % P])>>
RECURSIVE Elim(_,_,_,_)
Elim(rows,i,B,n) ==
   IF i > Len(rows) \/ Cardinality(DOMAIN B) = n THEN B
   ELSE LET rr == Reduce(Dense(rows[i],n),B,1,n) IN
        IF rr[1] = 0 THEN Elim(rows,i+1,B,n)
        ELSE Elim(rows,i+1,TLCEval((rr[1] :> rr[2]) @@ B),n)
Rank(rows,n) == Cardinality(DOMAIN Elim(rows,1,<<>>,n))
\* determinant by Laplace expansion along the first row (small n only)
RECURSIVE Det(_,_,_)
Det(A,r,cols) ==   \* A dense n x n function of functions, rows r.., set of columns
   IF cols = {} THEN 1
   ELSE LET s == SetToSortSeq(cols, <)
        IN SumSeqP([t \in 1..Len(s) |->
             LET a == A[r][s[t]] % P
                 m == IF a = 0 THEN 0 ELSE (a*Det(A,r+1,cols \ {s[t]})) % P
             IN IF t % 2 = 1 THEN m ELSE (P-m) % P])
DetSp(M) == LET n == Len(M) IN Det([i \in 1..n |-> Dense(M[i],n)],1,1..n)
TraceSp(M) == SumSeqP([i \in 1..Len(M) |-> SpEntry(M,i,i)])
RECURSIVE SpPow(_,_)
SpPow(M,n) == IF n = 0 THEN SpId(Len(M)) ELSE SpMul(M,SpPow(M,n-1))
=============================================================================
