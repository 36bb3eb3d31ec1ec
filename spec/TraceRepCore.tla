----------------------------- MODULE TraceRepCore -----------------------------
(* Validates a recorded run of the representation algebra against           *)
(* RepMachine: the operations drive the machine of the specification, and   *)
(* every recorded answer is compared with what the specified expression     *)
(* denotes.                                                                 *)
EXTENDS RepMachine, Json, IOUtils
VARIABLES i, els
Trace == ndJsonDeserialize(IOEnv.TRACE)

Chk(b,name) == IF b THEN <<>> ELSE <<name>>
IsPermSeq(p,n) == DOMAIN p = 1..n /\ {p[k] : k \in 1..n} = 1..n

ElemOk(id,ev) == \A g \in DOMAIN ev.g :
   LET e == ev.g[g] IN IsSp(e.m,GT[g].d) /\ IsSp(e.w,GT[g].d) /\ IsSp(e.h,GT[g].d)
        /\ RowsEq(SpMul(e.m,SpT(e.w,GT[g].d)), SpId(GT[g].d))

\* verdict of one event: the names of the violated clauses
OpVerdict(ev) ==
   IF ev.ok = 0 THEN <<"operation failed">>
   ELSE LET t == Result(regs,ev.op) IN
        Chk((ev.conc = 1) = Conc(t), "instantiated") \o Chk(ev.txt = 1, "text")
        \o (IF Conc(t) THEN Chk(ev.size = Size(t), "size") ELSE <<>>)
MatVerdict(ev,D,n) ==
   Chk(ev.size = n, "size") \o Chk(ev.shape = <<n,n>>, "shape of the action")
   \o Chk(Len(ev.mat) = n /\ RowsEq(ev.mat, D), "matrix of the action")
   \o Chk(ev.av = SpApply(D,ev.v), "action on a vector")
   \o Chk(ev.aw = <<SpApply(D,ev.w1), SpApply(D,ev.w2)>>, "action on a matrix")
ActVerdict(ev) ==
   IF ev.ok = 0 THEN <<"evaluation failed">>
   ELSE LET t == regs[ev.r] IN
        MatVerdict(ev, IF ev.e = "rho" THEN RhoT(t,els[ev.id]) ELSE DrhoT(t,els[ev.id]), Size(t))
\* coordinate a of the canonical form is coordinate perm[a] of the written one
Conjugate(D,perm) == LET n == Len(D)
                         inv == [b \in 1..n |-> CHOOSE a \in 1..n : perm[a] = b]
                     IN TLCEval([a \in 1..n |-> [x \in DOMAIN D[perm[a]] |-> <<inv[D[perm[a]][x][1]], D[perm[a]][x][2]>>]])
CanonVerdict(ev) ==
   IF ev.ok = 0 THEN <<"canonicalization failed">>
   ELSE LET t == regs[ev.r]
            n == Size(t)
        IN Chk(ev.same = 1, "canonicalization changed its argument")
           \o Chk(ev.idem = 1, "canonicalizing twice")
           \o (IF ~(ev.size = n /\ IsPermSeq(ev.perm,n)) THEN <<"not a permutation of the coordinates">>
               ELSE Chk(Len(ev.mat) = n /\ RowsEq(ev.mat, Conjugate(RhoT(t,els[ev.id]),ev.perm)), "action in canonical order"))
\* same action of all known elements; open expressions are compared after instantiating them
Witness == CHOOSE g \in DOMAIN GT : GT[g].orth = 0 /\ \A h \in DOMAIN GT : GT[h].orth = 0 => GT[h].d <= GT[g].d
Closed(t) == IF Conc(t) THEN t ELSE InstT(t,Witness)
SameAction(a,b) == \/ a = b
                   \/ /\ Conc(a) = Conc(b) /\ GroupsOf(a) = GroupsOf(b)
                      /\ Size(Closed(a)) = Size(Closed(b))
                      /\ (Size(Closed(a)) <= 60 => \A k \in DOMAIN els :
                            RowsEq(RhoT(Closed(a),els[k]), RhoT(Closed(b),els[k])))
PairVerdict(p) ==
   LET a == regs[p[1]]
       b == regs[p[2]]
   IN Chk(p[3] \in {0,1} /\ p[4] \in {0,1} /\ p[5] \in {0,1} /\ p[6] \in {0,1}, "comparison or hash failed")
      \o Chk(p[3] = p[4], "equality is not symmetric")
      \o Chk(p[3] = p[6], "equality and inequality disagree")
      \o Chk(p[3] = 1 => p[5] = 1, "equal objects with different hashes")
      \o Chk(a = b => p[3] = 1, "identical expressions are not equal")
      \o Chk(p[3] = 1 => (Conc(a) = Conc(b) /\ HasSum(a) = HasSum(b) /\ Poly(a) = Poly(b)), "equal although made of different tensors")
      \o Chk(p[3] = 1 => SameAction(a,b), "equal although the actions differ")
CPairVerdict(p) ==
   LET a == regs[p[1]]
       b == regs[p[2]]
       bag == HasSum(a) = HasSum(b) /\ Poly(a) = Poly(b)
   IN Chk(bag => (p[3] = 1 /\ p[4] = 1), "same tensors but different canonical forms")
      \o Chk(bag => p[5] = 1, "same tensors but different hashes of the canonical forms")
      \o Chk(~bag => (p[3] = 0 /\ p[4] = 0), "different tensors but equal canonical forms")
FlatPairs(ev,V(_)) == Chk(ev.same = 1, "comparing changed an object") \o FlattenSeq([k \in DOMAIN ev.pairs |->
        LET v == V(ev.pairs[k]) IN [m \in DOMAIN v |-> v[m] \o " [" \o ToString(ev.pairs[k]) \o "]"]])

GroupPair(ev,a,b) ==
   LET same == ev.list[a] = ev.list[b]
       q == ev.eq[a][b]
   IN Chk(q[1] \in {0,1} /\ q[2] \in {0,1}, "comparison or hash of groups failed")
      \o Chk(same => q[1] = 1, "same construction but different groups")
      \o Chk(~same => q[1] = 0, "different constructions but equal groups")
      \o Chk(q[1] = 1 => q[2] = 1, "equal groups with different hashes")
GroupsVerdict(ev) == Chk(ev.same = 1, "comparing changed a group") \o FlattenSeq([a \in DOMAIN ev.list |-> FlattenSeq([b \in DOMAIN ev.list |-> GroupPair(ev,a,b)])])

RepVerdict(ev) ==
  CASE ev.e = "reset" -> <<>>
    [] ev.e = "crash" -> <<"unexpected exception">>
    [] ev.e = "elems" -> Chk(ElemOk(ev.id,ev), "HARNESS elements")
    [] ev.e = "op"    -> OpVerdict(ev)
    [] ev.e \in {"rho","drho"} -> ActVerdict(ev)
    [] ev.e = "canon" -> CanonVerdict(ev)
    [] ev.e = "eqs"   -> FlatPairs(ev,PairVerdict)
    [] ev.e = "ceqs"  -> FlatPairs(ev,CPairVerdict)
    [] ev.e = "groups"-> GroupsVerdict(ev)

TraceInit == i = 1 /\ regs = <<>> /\ els = <<>>
Report(v) == \A k \in DOMAIN v : PrintT(<<"REJECT", i, v[k]>>)
Progress == PrintT(<<IF i = Len(Trace) THEN "DONE" ELSE "AT", i>>)
\* the state after an event
StepRegs(ev) ==
     /\ regs' = CASE ev.e = "reset" -> <<>>
                  [] ev.e = "op" /\ ev.ok = 1 -> Append(regs, Result(regs,ev.op))
                  [] OTHER -> regs
     /\ els' = CASE ev.e = "reset" -> <<>>
                 [] ev.e = "elems" -> Append(els, ev.g)
                 [] OTHER -> els
     /\ i' = i + 1
=============================================================================
