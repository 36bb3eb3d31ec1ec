----------------------------- MODULE TraceSolve -----------------------------
(* Validation of recorded histories that also ask for equivariant bases and  *)
(* projectors (C05, C06, C07, C19).  The answer about a register is judged   *)
(* by what the register's expression denotes, whatever was asked before.     *)
EXTENDS TraceRepCore, SolveGroups
INV == INSTANCE Invariants
VARIABLES memo,    \* exact dimensions found so far
          answers  \* expression -> projector answered for it

QS == 10000
TolV == 40             \* 4e-3 per coordinate
TolO == 400000         \* 4e-3 in scalar products of unit vectors
\* recorded vectors: sequences of integers (real) or of pairs
Cx(ev,v) == IF ev.cx = 1 THEN v ELSE [k \in DOMAIN v |-> <<v[k],0>>]
Inner(v,w) == FoldLeft(LAMBDA acc,k : <<acc[1] + v[k][1]*w[k][1] + v[k][2]*w[k][2], acc[2] + v[k][1]*w[k][2] - v[k][2]*w[k][1]>>, <<0,0>>, [k \in DOMAIN v |-> k])
BasisVerdict(ev) ==
  IF ev.ok = 0 THEN IF ev.noconv = 1 /\ GroupsOf(regs[ev.r]) \cap FineGroups # {} THEN <<>> ELSE <<IF ev.noconv = 1 THEN "the solver does not converge" ELSE "solving failed">>
  ELSE LET t == regs[ev.r]
           n == Size(t)
           Q == [c \in DOMAIN ev.q |-> Cx(ev,ev.q[c])]
       IN IF ~(ev.n = n /\ \A c \in DOMAIN Q : Len(Q[c]) = n) THEN <<"shape of the basis">>
          ELSE Chk(LET dim == INV!DimOf(t,memo') IN Len(Q) = IF ev.cap > 0 /\ ev.cap < dim THEN ev.cap ELSE dim, "dimension of the invariant space")
            \o Chk(\A a,b \in DOMAIN Q : a <= b => LET z == Inner(Q[a],Q[b])
                     IN INV!Near(z[1], IF a = b THEN QS*QS ELSE 0, TolO*ev.loose) /\ INV!Near(z[2],0,TolO*ev.loose), "orthonormal columns")
            \o Chk(\A c \in DOMAIN Q : INV!FixedByGroups(t,Q[c],TolV*ev.loose), "columns fixed by the discrete generators")
            \o Chk(\A c \in DOMAIN Q : INV!KilledByAlgebras(t,Q[c],TolV*ev.loose), "columns annihilated by the Lie algebra")
ProjVerdict(ev) ==
  IF ev.ok = 0 THEN <<"projecting failed">>
  ELSE LET t == regs[ev.r]
           n == Size(t)
           \* columns of the projector
           C == [c \in DOMAIN ev.p |-> Cx(ev,ev.p[c])]
       IN IF ~(ev.n = n /\ Len(C) = n /\ \A c \in DOMAIN C : Len(C[c]) = n) THEN <<"shape of the projector">>
          ELSE Chk(\A a,b \in 1..n : a <= b => INV!Near(C[a][b][1],C[b][a][1],TolV) /\ INV!Near(C[a][b][2],-C[b][a][2],TolV), "Hermitian")
            \* with a Hermitian P, the scalar product of columns a and b is the entry (a,b) of P.P
            \o Chk(\A a,b \in 1..n : a <= b => LET z == Inner(C[a],C[b])
                     IN INV!Near(z[1], QS*C[b][a][1], TolO) /\ INV!Near(z[2],QS*C[b][a][2],TolO), "idempotent")
            \o Chk(INV!Near(SumSeq([a \in 1..n |-> C[a][a][1]]), QS*INV!DimOf(t,memo'), 40*n+40), "trace is the dimension of the invariant space")
            \o Chk(\A c \in 1..n : INV!FixedByGroups(t,C[c],TolV), "range fixed by the discrete generators")
            \o Chk(\A c \in 1..n : INV!KilledByAlgebras(t,C[c],TolV), "range annihilated by the Lie algebra")
            \* application to one vector and to a matrix whose first column it is
            \o Chk(LET y == [k \in 1..n |-> FoldLeft(LAMBDA acc,c : <<acc[1] + C[c][k][1]*ev.v[c], acc[2] + C[c][k][2]*ev.v[c]>>, <<0,0>>, [c \in 1..n |-> c])]
                   IN INV!VNear(Cx(ev,ev.pv),y,TolV*8) /\ INV!VNear(Cx(ev,ev.pm),y,TolV*8), "application to vectors and matrices")
            \o Chk(t \in DOMAIN answers => INV!VNear(FlattenSeq(C), answers[t], TolV), "same answer as before")
SolveVerdict(ev) == CASE ev.e = "basis" -> BasisVerdict(ev)
                      [] ev.e = "proj" -> ProjVerdict(ev)
                      [] ev.e = "again" -> Chk(ev.same = 1, "an existing representation changed")
                      [] OTHER -> RepVerdict(ev)
SolveInit == TraceInit /\ memo = <<>> /\ answers = <<>>
SolveNext ==
  /\ i <= Len(Trace)
  /\ LET ev == Trace[i] IN
     /\ memo' = IF ev.e \in {"basis","proj"} THEN INV!AddParts(regs[ev.r],memo) ELSE memo
     /\ answers' = CASE ev.e = "reset" -> <<>>
                     [] ev.e = "proj" /\ ev.ok = 1 -> (regs[ev.r] :> FlattenSeq([c \in DOMAIN ev.p |-> Cx(ev,ev.p[c])])) @@ answers
                     [] OTHER -> answers
     /\ Report(SolveVerdict(ev)) = TRUE
     /\ StepRegs(ev)
  /\ Progress
=============================================================================
