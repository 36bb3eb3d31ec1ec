------------------------------- MODULE Alloc -------------------------------
(* Spreading channels over tensor ranks.  A share of rank r is a set of      *)
(* d^(R-r) tensors of rank r, so it fills d^R channels for every r <= R.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
RECURSIVE Pow(_,_)
Pow(d,r) == IF r = 0 THEN 1 ELSE d*Pow(d,r-1)
RECURSIVE Fit(_,_,_)
Fit(ch,d,r) == IF (r+2)*Pow(d,r+1) > ch THEN r ELSE Fit(ch,d,r+1)
\* the largest rank R such that R+1 equal shares of d^R channels fit
MaxRank(ch,d) == Fit(ch,d,0)
RECURSIVE Greedy(_,_,_)
Greedy(ch,d,ns) ==
  IF ch = 0 THEN ns
  ELSE LET R == MaxRank(ch,d)
       IN Greedy(ch - (R+1)*Pow(d,R), d, TLCEval([k \in DOMAIN ns |-> ns[k] + (IF k-1 <= R THEN Pow(d,R-(k-1)) ELSE 0)]))
\* number of tensors of rank k-1, k = 1..
Ranks(ch,d) == Greedy(ch,d,[k \in 1..(MaxRank(ch,d)+1) |-> 0])
RECURSIVE BinomC(_,_)
BinomC(n,k) == IF k = 0 \/ k = n THEN 1 ELSE BinomC(n-1,k-1) + BinomC(n-1,k)
\* tensors of type (p,r-p) in every full set of 2^r
Full(N,r) == IF r > 20 THEN 0 ELSE N \div Pow(2,r)
=============================================================================
