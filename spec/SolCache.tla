------------------------------ MODULE SolCache ------------------------------
(* Design of the solution cache: answers are computed for the canonical form *)
(* of an expression, stored under a key made from it, and rearranged into    *)
(* the written order of whoever asks.  Whatever was asked before, an answer  *)
(* is the one a computation from scratch gives (NoStale).                    *)
(* KeyOf and Rearrange are the two design decisions; the configurations with *)
(* KeyOf <- KeyNoGroup or Rearrange <- Keep must violate NoStale.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Grps, Bases, MaxLen, KeyOf(_), Rearrange(_,_,_)
VARIABLES cache, asked, answer, steps
\* an atom is a base representation of a group; its order in the canonical form is arbitrary but fixed
Atoms == Grps \X Bases
Exprs == UNION {[1..n -> Atoms] : n \in 1..MaxLen}
Rank == CHOOSE f \in [Atoms -> 1..Cardinality(Atoms)] : \A a,b \in Atoms : a # b => f[a] # f[b]
\* stable sort: the positions of e in canonical order
RECURSIVE SortPos(_,_)
SortPos(e,S) == IF S = {} THEN <<>>
   ELSE LET k == CHOOSE k \in S : \A j \in S : Rank[e[k]] < Rank[e[j]] \/ (Rank[e[k]] = Rank[e[j]] /\ k <= j)
        IN <<k>> \o SortPos(e,S \ {k})
Perm(e) == SortPos(e,DOMAIN e)
Canon(e) == [k \in DOMAIN e |-> e[Perm(e)[k]]]
\* what solving yields: one block of solutions per atom, in order
Solve(e) == [k \in DOMAIN e |-> <<"solution of", e[k]>>]
InWritten(a,c,e) == [k \in DOMAIN e |-> a[CHOOSE j \in DOMAIN e : Perm(e)[j] = k]]
Keep(a,c,e) == a
KeyFull(e) == Canon(e)
KeyNoGroup(e) == [k \in DOMAIN e |-> Canon(e)[k][2]]
Init == cache = <<>> /\ asked = <<>> /\ answer = <<>> /\ steps = 0
Ask(e) == LET k == KeyOf(e)
              c == IF k \in DOMAIN cache THEN cache[k] ELSE Solve(Canon(e))
          IN /\ cache' = (k :> c) @@ cache
             /\ asked' = e
             /\ answer' = Rearrange(c,Canon(e),e)
             /\ steps' = steps + 1
Next == steps < 3 /\ \E e \in Exprs : Ask(e)
NoStale == asked = <<>> \/ answer = Solve(asked)
\* cached entries are never overwritten by something else
Stable == [][\A k \in DOMAIN cache : k \in DOMAIN cache' /\ cache'[k] = cache[k]]_<<cache,asked,answer,steps>>
=============================================================================
