------------------------------- MODULE Krylov -------------------------------
(* Design of the iterative solver: a rank budget r that is doubled as long   *)
(* as the space found fills the budget, gradient descent with a learning     *)
(* rate that is lowered on divergence, and a memory limit.                   *)
(* Dim is the dimension of the space; an attempt with budget r that          *)
(* converges finds min(Dim, r) directions.                                   *)
EXTENDS Integers
CONSTANTS MaxDim, R0, MaxLr, MemR, Again(_,_)
VARIABLES dim, r, lr, found, pc, gaveup
vars == <<dim,r,lr,found,pc,gaveup>>
Min(a,b) == IF a < b THEN a ELSE b
Full(f,b) == f = b          \* the loop condition of the library
Stop(f,b) == FALSE          \* a broken one: a single attempt
Init == dim \in 0..MaxDim /\ r = R0 /\ lr = MaxLr /\ found = R0 /\ pc = "loop" /\ gaveup = FALSE
Double == pc = "loop" /\ Again(found,r) /\ r' = 2*r
          /\ (IF 2*r > MemR THEN pc' = "done" /\ gaveup' = TRUE ELSE pc' = "descend" /\ gaveup' = gaveup)
          /\ lr' = MaxLr /\ UNCHANGED <<dim,found>>
Finish == pc = "loop" /\ ~Again(found,r) /\ pc' = "done" /\ UNCHANGED <<dim,r,lr,found,gaveup>>
Converge == pc = "descend" /\ found' = Min(dim,r) /\ pc' = "loop" /\ UNCHANGED <<dim,r,lr,gaveup>>
Diverge == pc = "descend" /\ (IF lr = 0 THEN pc' = "error" /\ lr' = lr ELSE pc' = pc /\ lr' = lr - 1) /\ UNCHANGED <<dim,r,found,gaveup>>
NoConvergence == pc = "descend" /\ pc' = "error" /\ UNCHANGED <<dim,r,lr,found,gaveup>>
Next == Double \/ Finish \/ Converge \/ Diverge \/ NoConvergence
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* an answer given without a message about the memory limit is complete, and there was at least one attempt
Complete == (pc = "done" /\ ~gaveup) => found = dim
\* whatever is returned is never more than the space
NeverTooMany == pc = "done" => (found <= dim \/ gaveup)
Terminates == <>(pc \in {"done","error"})
=============================================================================
