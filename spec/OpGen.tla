-------------------------------- MODULE OpGen --------------------------------
EXTENDS OpMachine, Json, CSV, IOUtils
CONSTANT NOps
VARIABLES hist, done
Pick(S) == RandomElement(S)
TakeOp(op) == IF ValidO(regs,op) THEN \E x \in {ResultO(regs,op)} : IF Fits(x) THEN regs' = Append(regs,x) /\ hist' = Append(hist,op) ELSE UNCHANGED <<regs,hist>>
              ELSE UNCHANGED <<regs,hist>>
RandM(n,m,cx) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> <<Pick(-2..2), IF cx = 1 THEN Pick(-2..2) ELSE 0>>])])
Simple(o,i,j,k) == OOp(o,i,j,0,k,<<>>,<<>>,<<>>,Zero)
Leaf == \E c \in {Pick({"I","perm","shift","swap","rot","lazy","lazy2","raw","uni","rawuni"})} : \E n \in {Pick(1..4)} : \E m \in {Pick(1..4)} : \E k \in {Pick(-2..5)} : \E cx \in {Pick(1..3)} :
  TakeOp(CASE c = "I" -> OOp("I",0,0,n,0,<<>>,<<>>,<<>>,Zero)
    [] c = "perm" -> OOp("perm",0,0,n,0,SetToSeq({}) \o TLCEval(Pick({[x \in 1..n |-> p[x]] : p \in Permutations(1..n)})),<<>>,<<>>,Zero)
    [] c = "shift" -> OOp("shift",0,0,n,k,<<>>,<<>>,<<>>,Zero)
    [] c = "swap" -> LET a == Pick(1..n) b == n+1 IN OOp("swap",IF cx = 1 THEN b ELSE a,IF cx = 1 THEN a ELSE b,n+m,0,<<>>,<<>>,<<>>,Zero)
    [] c = "rot" -> OOp("rot",0,0,IF n > 3 THEN 2 ELSE n,k,<<>>,<<>>,<<>>,Zero)
    [] c \in {"lazy","lazy2"} -> OOp("lazy",0,0,n,m,<<>>,<<>>,RandM(n,m,cx),Zero)
    [] c = "raw" -> OOp("raw",0,0,n,m,<<>>,<<>>,RandM(n,m,cx),Zero)
    [] c \in {"uni","rawuni"} -> OOp(c,0,0,Pick(DOMAIN Uni),0,<<>>,<<>>,<<>>,Zero))
Ops == {i \in DOMAIN regs : regs[i].raw = 0}
Like(i) == {j \in DOMAIN regs : R(regs[j]) = R(regs[i]) /\ C(regs[j]) = C(regs[i])}
After(i) == {j \in Ops : R(regs[j]) = C(regs[i])}
Recent(S) == LET T == {i \in S : i + 5 >= Len(regs)} IN IF T = {} \/ Pick(1..3) = 1 THEN S ELSE T
ListOp(o) == \E n \in {Pick({2,2,3})} : \E a \in {Pick(Recent(DOMAIN regs))} :
   \E l \in {TLCEval([x \in 1..n |-> IF x = 1 THEN a ELSE Pick(IF o = "cat" THEN Like(a) ELSE DOMAIN regs)])} :
   \E ml \in {TLCEval([x \in 1..n |-> Pick({1,1,2,3})])} :
   TakeOp(OOp(o,0,0,0,0,l,ml,<<>>,Zero))
Step == \E kd \in {IF Len(regs) < 3 THEN 1 ELSE Pick(1..20)} :
   IF kd <= 3 THEN Leaf
   ELSE IF kd <= 5 THEN ListOp("kron")
   ELSE IF kd = 6 THEN ListOp("ksum")
   ELSE IF kd <= 8 THEN ListOp("dsum")
   ELSE IF kd = 9 THEN ListOp("cat")
   ELSE IF Ops = {} THEN UNCHANGED <<regs,hist>>
   ELSE \E a \in {Pick(Recent(Ops))} :
     CASE kd \in {10,11} -> TakeOp(Simple(Pick({"add","sub"}),a,Pick(Like(a)),0))
       [] kd \in {12,13} -> IF After(a) = {} THEN UNCHANGED <<regs,hist>> ELSE TakeOp(Simple("mul",a,Pick(After(a)),0))
       [] kd = 14 -> TakeOp(Simple("neg",a,0,0))
       [] kd = 15 -> TakeOp([Simple(Pick({"scale","rscale"}),a,0,0) EXCEPT !.al = Pick({<<2,0>>,<<-1,0>>,<<0,1>>,<<1,1>>,<<0,-1>>,<<1,0>>,<<-3,0>>})])
       [] kd = 16 -> TakeOp(Simple("pow",a,0,Pick(0..3)))
       [] kd = 17 -> TakeOp(Simple("T",a,0,0))
       [] kd = 18 -> TakeOp(Simple("H",a,0,0))
       [] OTHER -> LET S == {i \in Ops : regs[i].iv # <<>>} IN IF S = {} THEN UNCHANGED <<regs,hist>> ELSE TakeOp(Simple("invT",Pick(S),0,0))
GenInit == regs = <<>> /\ hist = <<>> /\ done = FALSE
GenNext == \/ Len(hist) < NOps /\ Step /\ UNCHANGED done
           \/ /\ Len(hist) = NOps /\ ~done
              /\ CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
              /\ done' = TRUE /\ UNCHANGED <<regs,hist>>
=============================================================================
