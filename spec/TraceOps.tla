------------------------------ MODULE TraceOps ------------------------------
(* Validates recorded answers of linear operators against dense algebra.     *)
EXTENDS OpMachine, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk(b,name) == IF b THEN <<>> ELSE <<name>>
\* recorded entries are Gaussian integers up to an overall denominator of 1
OneVerdict(what,o,A,x,X) ==
  LET n == Len(A)
      m == Len(A[1])
      k == Len(X[1])
  IN (IF o.ok = 0 THEN <<what \o " raised">> ELSE
      Chk(o.shape = <<n,m>>, what \o ": shape")
      \o Chk(o.dense = A, what \o ": dense form")
      \o Chk(o.y = [r \in 1..n |-> CSum([c \in 1..m |-> CMul(A[r][c],x[c])])], what \o " applied to a vector")
      \o Chk(o.y1 = [r \in 1..n |-> <<CSum([c \in 1..m |-> CMul(A[r][c],x[c])])>>], what \o " applied to a column")
      \o Chk(o.Y = GMul(A,X,k), what \o " applied to a matrix"))
Pad(x,n) == [c \in 1..n |-> x[c]]
ObsVerdict(ev) ==
  LET A == regs[ev.i].m
      one(what,o,B) == OneVerdict(what,o,B,Pad(ev.x,Len(B[1])),Pad(ev.X,Len(B[1])))
  IN one("operator",ev.a,A) \o one("transpose",ev.t,GT(A)) \o one("adjoint",ev.h,GH(A))
     \o one("conjugate of the transpose",ev.th,GConj(A)) \o one("transpose of the transpose",ev.tt,A)
     \o (IF ev.vj.ok = 2 THEN <<>> ELSE IF ev.vj.ok = 0 THEN <<"differentiating through the operator raised">> ELSE
         LET B == GT(A) IN Chk(ev.vj.y = [r \in 1..Len(B) |-> CSum([c \in 1..Len(A) |-> CMul(B[r][c],ev.x[c])])], "gradient through the operator"))
Verdict(ev) == CASE ev.e = "reset" -> <<>>
   [] ev.e = "crash" -> <<"unexpected exception">>
   [] ev.e = "op" -> Chk(ev.ok = 1, "building an operator raised")
   [] ev.e = "obs" -> ObsVerdict(ev)
   [] ev.e = "again" -> Chk(ev.ok = 1 /\ ev.d = [k \in DOMAIN regs |-> regs[k].m], "operands are unchanged")
Init == i = 1 /\ regs = <<>>
Report(v) == \A k \in DOMAIN v : PrintT(<<"REJECT", i, v[k]>>)
Next == /\ i <= Len(Trace)
        /\ LET ev == Trace[i] IN
           /\ Report(Verdict(ev)) = TRUE
           /\ regs' = CASE ev.e = "reset" -> <<>> [] ev.e = "op" -> Append(regs,ResultO(regs,ev.op)) [] OTHER -> regs
        /\ i' = i + 1
        /\ PrintT(<<IF i = Len(Trace) THEN "DONE" ELSE "AT", i>>)
=============================================================================
