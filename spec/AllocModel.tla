----------------------------- MODULE AllocModel -----------------------------
(* The allocation as a process: how many channels are left and what has been *)
(* handed out.  It always ends, and never hands out more than is left.       *)
EXTENDS Alloc
CONSTANTS MaxCh, MaxD, Broken
VARIABLES ch, d, left, ns
Dim == FoldLeft(LAMBDA a,k : a + ns[k]*Pow(d,k-1), 0, [k \in 1..Len(ns) |-> k])
Init == /\ ch \in 1..MaxCh /\ d \in 1..MaxD /\ left = ch
        /\ ns = [k \in 1..(MaxRank(ch,d)+1) |-> 0]
Give == /\ left > 0
        /\ LET R == IF Broken = 1 /\ left > d THEN MaxRank(left,d)+1 ELSE MaxRank(left,d) IN
           /\ left' = left - (R+1)*Pow(d,R)
           /\ ns' = [k \in 1..Len(ns) |-> ns[k] + (IF k-1 <= R THEN Pow(d,R-(k-1)) ELSE 0)]
        /\ UNCHANGED <<ch,d>>
Next == Give \/ (left <= 0 /\ UNCHANGED <<ch,d,left,ns>>)
Spec == Init /\ [][Next]_<<ch,d,left,ns>>
Exact == Dim + left = ch
NeverOver == left >= 0
Done == left = 0 => ns = Ranks(ch,d)
\* every step hands something out, so it ends
Decreases == [][left > 0 => left' < left]_<<ch,d,left,ns>>
=============================================================================
