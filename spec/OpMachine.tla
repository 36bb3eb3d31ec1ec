------------------------------ MODULE OpMachine ------------------------------
(* A program over linear operators.  regs[k] is what the k-th register       *)
(* denotes: its dense matrix m, the inverse transpose iv where the library   *)
(* offers one (<<>> otherwise), and raw = 1 for a plain dense matrix that is *)
(* only used as an ingredient.                                               *)
EXTENDS Gauss
CONSTANTS MaxDim, MaxEntry
VARIABLE regs
\* operation record: l = registers of a list operation, or a permutation; ml = multiplicities; m = entries; al = scalar
OOp(o,i,j,n,k,l,ml,m,al) == [o |-> o, i |-> i, j |-> j, n |-> n, k |-> k, l |-> l, ml |-> ml, m |-> m, al |-> al]
Reg(m,iv,raw) == [m |-> m, iv |-> iv, raw |-> raw]
R(x) == Len(x.m)
C(x) == Len(x.m[1])
Sq(x) == R(x) = C(x)
Zero == <<0,0>>
Self(A) == Reg(A,A,0)                       \* a permutation matrix is its own inverse transpose
ShiftP(n,k) == [i \in 1..n |-> ((i-1-k) % n)+1]
\* turning an n by n array by k quarter turns counterclockwise: out[i][j] = in[j][n+1-i]
RECURSIVE RotIdx(_,_,_,_)
RotIdx(n,k,i,j) == IF k = 0 THEN <<i,j>> ELSE RotIdx(n,k-1,j,n+1-i)
RotP(n,k) == [x \in 1..(n*n) |-> LET r == RotIdx(n,k % 4,((x-1) \div n)+1,((x-1) % n)+1) IN (r[1]-1)*n+r[2]]
\* unimodular matrices with their inverse transposes
Z(M) == [i \in DOMAIN M |-> [j \in DOMAIN M[i] |-> <<M[i][j],0>>]]
Uni == << <<Z(<< <<1,1>>,<<0,1>> >>), Z(<< <<1,0>>,<<-1,1>> >>)>>,
          <<Z(<< <<2,1>>,<<1,1>> >>), Z(<< <<1,-1>>,<<-1,2>> >>)>>,
          << << << <<0,1>>,<<1,0>> >>, << <<0,0>>,<<1,0>> >> >>, << << <<0,-1>>,<<0,0>> >>, << <<0,1>>,<<1,0>> >> >> >>,
          <<Z(<< <<1,2,0>>,<<0,1,0>>,<<0,-1,1>> >>), Z(<< <<1,0,0>>,<<-2,1,1>>,<<0,0,1>> >>)>> >>
Ivs(rs,l) == IF \A k \in DOMAIN l : rs[l[k]].iv # <<>> THEN [k \in DOMAIN l |-> rs[l[k]].iv] ELSE <<>>
Ms(rs,l) == [k \in DOMAIN l |-> rs[l[k]].m]
FoldG(f(_,_),s) == FoldLeft(LAMBDA a,b : TLCEval(f(a,b)), Head(s), Tail(s))
Spread(s,ml) == FlattenSeq([k \in DOMAIN s |-> [x \in 1..ml[k] |-> s[k]]])
ResultO(rs,op) ==
  CASE op.o = "I" -> Self(GId(op.n))
    [] op.o = "perm" -> Self(GPerm(op.l))
    [] op.o = "shift" -> Self(GPerm(ShiftP(op.n,op.k)))
    [] op.o = "swap" -> Self(GPerm([x \in 1..op.n |-> IF x = op.i THEN op.j ELSE IF x = op.j THEN op.i ELSE x]))
    [] op.o = "rot" -> Self(GPerm(RotP(op.n,op.k)))
    [] op.o = "lazy" -> Reg(op.m,GInvT(op.m),0)
    [] op.o = "raw" -> Reg(op.m,GInvT(op.m),1)
    [] op.o = "uni" -> Reg(Uni[op.n][1],Uni[op.n][2],0)
    [] op.o = "rawuni" -> Reg(Uni[op.n][1],Uni[op.n][2],1)
    [] op.o = "kron" -> Reg(FoldG(GKron,Ms(rs,op.l)), IF Ivs(rs,op.l) = <<>> THEN <<>> ELSE FoldG(GKron,Ivs(rs,op.l)), 0)
    [] op.o = "ksum" -> Reg(FoldG(GKronsum,Ms(rs,op.l)),<<>>,0)
    [] op.o = "dsum" -> Reg(FoldG(GBlock,Spread(Ms(rs,op.l),op.ml)), IF Ivs(rs,op.l) = <<>> THEN <<>> ELSE FoldG(GBlock,Spread(Ivs(rs,op.l),op.ml)), 0)
    [] op.o = "cat" -> Reg(FlattenSeq(Ms(rs,op.l)),<<>>,0)
    [] op.o \in {"add","sub"} -> LET A == GAdd(rs[op.i].m, IF op.o = "sub" THEN GScale(<<-1,0>>,rs[op.j].m) ELSE rs[op.j].m) IN Reg(A,GInvT(A),0)
    [] op.o = "mul" -> Reg(GMul(rs[op.i].m,rs[op.j].m,C(rs[op.j])), IF rs[op.i].iv = <<>> \/ rs[op.j].iv = <<>> THEN <<>> ELSE GMul(rs[op.i].iv,rs[op.j].iv,C(rs[op.j])), 0)
    [] op.o = "neg" -> Reg(GScale(<<-1,0>>,rs[op.i].m), IF rs[op.i].iv = <<>> THEN <<>> ELSE GScale(<<-1,0>>,rs[op.i].iv), 0)
    [] op.o \in {"scale","rscale"} -> Reg(GScale(op.al,rs[op.i].m), IF rs[op.i].iv = <<>> \/ UnitInv(op.al) = Zero THEN <<>> ELSE GScale(UnitInv(op.al),rs[op.i].iv), 0)
    [] op.o = "pow" -> Reg(GPow(rs[op.i].m,op.k), IF rs[op.i].iv = <<>> THEN <<>> ELSE GPow(rs[op.i].iv,op.k), 0)
    [] op.o = "T" -> Reg(GT(rs[op.i].m),<<>>,0)
    [] op.o = "H" -> Reg(GH(rs[op.i].m),<<>>,0)
    [] op.o = "invT" -> Reg(rs[op.i].iv,<<>>,0)
SizeOk(rs,op) ==
  CASE op.o = "kron" -> FoldLeft(LAMBDA a,k : a*R(rs[k]),1,op.l) <= MaxDim /\ FoldLeft(LAMBDA a,k : a*C(rs[k]),1,op.l) <= MaxDim
    [] op.o = "ksum" -> FoldLeft(LAMBDA a,k : a*R(rs[k]),1,op.l) <= MaxDim
    [] op.o = "dsum" -> SumSeq([k \in DOMAIN op.l |-> op.ml[k]*R(rs[op.l[k]])]) <= MaxDim /\ SumSeq([k \in DOMAIN op.l |-> op.ml[k]*C(rs[op.l[k]])]) <= MaxDim
    [] op.o = "cat" -> SumSeq([k \in DOMAIN op.l |-> R(rs[op.l[k]])]) <= MaxDim
    [] OTHER -> TRUE
ValidO(rs,op) ==
  /\ SizeOk(rs,op)
  /\ op.o = "ksum" => \A k \in DOMAIN op.l : Sq(rs[op.l[k]])
  /\ op.o = "cat" => \A k \in DOMAIN op.l : R(rs[op.l[k]]) = R(rs[op.l[1]]) /\ C(rs[op.l[k]]) = C(rs[op.l[1]])
  /\ op.o \in {"add","sub"} => R(rs[op.i]) = R(rs[op.j]) /\ C(rs[op.i]) = C(rs[op.j]) /\ rs[op.i].raw = 0
  /\ op.o = "sub" => rs[op.j].raw = 0
  /\ op.o = "mul" => C(rs[op.i]) = R(rs[op.j]) /\ rs[op.i].raw = 0 /\ rs[op.j].raw = 0
  /\ op.o \in {"neg","scale","rscale","pow","T","H","invT"} => rs[op.i].raw = 0
  /\ op.o = "pow" => Sq(rs[op.i])
  /\ op.o = "invT" => rs[op.i].iv # <<>>
  /\ op.o \in {"scale","rscale"} => op.al # Zero
\* a list of one is that element itself, which may be a plain matrix
Norm(rs,op) == IF op.o \in {"kron","ksum"} /\ Len(op.l) = 1 THEN FALSE ELSE TRUE
Fits(x) == R(x) <= MaxDim /\ C(x) <= MaxDim /\ GMax(x.m) <= MaxEntry
\* what the inverse transpose is
IvOk == \A k \in DOMAIN regs : regs[k].iv # <<>> => GMul(GT(regs[k].iv),regs[k].m,C(regs[k])) = GId(C(regs[k]))
=============================================================================
