------------------------------ MODULE RepGen ------------------------------
(* Behaviours of RepMachine for the conformance driver: TLC -simulate walks *)
(* it and writes the operation history of each walk as one JSON line.       *)
EXTENDS RepMachine, Json, CSV, IOUtils, Randomization
CONSTANTS NOps, PoolSize, ShuffleP, Families,   \* sets of groups that are easily taken for each other
          ObsKinds,      \* observations that are part of the history ({} when the driver chooses them)
          Plain          \* groups only used with the base and the trivial representation
VARIABLES hist, done, pool

\* the largest tensor, per group, whose exact invariant dimension the trace specification computes
RECURSIVE PowI(_,_)
PowI(b,e) == IF e = 0 THEN 1 ELSE b*PowI(b,e-1)
PartSize(m,g) == FoldSet(LAMBDA a,acc : acc*PowI(AtomSize(a),m[a]), 1, {a \in DOMAIN m : a.g = g})
CONSTANT MaxElim
ObsAllowed(t) == \A m \in DOMAIN Poly(t) : \A g \in GroupsOf(t) : PartSize(m,g) <= MaxElim
\* the iterative solver is called with the constraints of one tensor of one group
KryKinds == {"kry","kry2"}
ObsOk(kd,t) == /\ Conc(t) /\ ObsAllowed(t)
               /\ kd \in KryKinds => (~HasSum(t) /\ Cardinality(GroupsOf(t)) = 1)
Pick(S) == RandomElement(S)
GenInit == regs = <<>> /\ hist = <<>> /\ done = FALSE /\ pool = {}
DoOp(op) == IF Valid(regs,op) THEN Do(op) /\ hist' = Append(hist,op)
            ELSE UNCHANGED <<regs,hist>>
Recent == {i \in DOMAIN regs : i + 6 >= Len(regs)}
Kinds == IF Len(regs) < 3 THEN {"atom1","atom2","T","atom3"} ELSE
   {"atom1","atom2","scalar","T","add","add2","add3","addint","mul","mul2","mul3","nmul","pow","dual","dual2","maps","inst","inst2","again"}
GenStep ==
  \E kd \in {Pick(Kinds)} : \E n \in {Pick(1..3)} : \E g \in {Pick(pool)} : \E bs \in {Pick(IF g \in Plain THEN {"V","triv"} ELSE Bases)} :
  \E a \in {IF regs = <<>> THEN 0 ELSE Pick(Recent)} : \E b \in {IF regs = <<>> THEN 0 ELSE Pick(DOMAIN regs)} :
  \E p \in {Pick(0..2)} : \E q \in {Pick(0..2)} : \E dfr \in {Pick(1..4)} : \E side \in BOOLEAN :
  side = (n = 2 \/ (n = 1 /\ p = 1)) /\
  CASE kd \in {"atom1","atom2"} -> DoOp(Op("atom",0,0,1,IF dfr = 1 THEN NoG ELSE g,"V"))
    [] kd = "atom3" -> DoOp(Op("atom",0,0,n,IF dfr = 1 THEN NoG ELSE g,bs))
    [] kd = "scalar" -> DoOp(Op("scalar",0,0,0,"",""))
    [] kd = "T" -> DoOp(Op("T",p,q,0,g,""))
    [] kd \in {"add","add2","add3"} -> DoOp(Op("add",a,b,0,"",""))
    [] kd = "addint" -> DoOp(Op(IF side THEN "addint" ELSE "raddint",a,0,n,"",""))
    [] kd \in {"mul","mul2","mul3"} -> DoOp(Op("mul",IF side THEN a ELSE b,IF side THEN b ELSE a,0,"",""))
    [] kd = "nmul" -> DoOp(Op(IF side THEN "nmul" ELSE "rnmul",a,0,n,"",""))
    [] kd = "pow" -> DoOp(Op("pow",a,0,p,"",""))
    [] kd \in {"dual","dual2"} -> DoOp(Op("dual",a,0,0,"",""))
    [] kd = "maps" -> DoOp(Op(IF side THEN "shr" ELSE "shl",a,b,0,"",""))
    \* a Plain group does not take over representations other than its base and the trivial one
    [] kd \in {"inst","inst2"} -> IF g \in Plain /\ \E x \in AtomsOf(regs[b]) : x.b \notin {"V","triv"}
                                 THEN UNCHANGED <<regs,hist>> ELSE DoOp(Op("inst",b,0,0,g,""))
    [] kd = "again" -> \* repeat an earlier operation: an equal expression, built separately
         \E h \in {IF hist = <<>> THEN 0 ELSE Pick(DOMAIN hist)} :
           IF h = 0 THEN UNCHANGED <<regs,hist>> ELSE DoOp(IF hist[h].o \in ObsKinds THEN Op("scalar",0,0,0,"","") ELSE hist[h])
\* observations: the register is chosen here, what must be answered is said by the trace specification
Obs == \E kd \in {Pick(ObsKinds)} : \E a \in {Pick(DOMAIN regs)} :
          IF ObsOk(kd,regs[a]) THEN hist' = Append(hist, Op(kd,a,0,0,"","")) /\ UNCHANGED regs
          ELSE UNCHANGED <<regs,hist>>
\* the same expression for another group, both asked the same question
RegOf(h) == Cardinality({k \in 1..h : hist[k].o \notin ObsKinds})
Twin == \E h \in {IF hist = <<>> THEN 0 ELSE Pick(DOMAIN hist)} : \E g \in {Pick(pool)} : \E kd \in {Pick(ObsKinds)} :
        IF h = 0 THEN UNCHANGED <<regs,hist>>
        ELSE LET op == [hist[h] EXCEPT !.g = g] IN
             IF /\ hist[h].o \in {"T","inst"} /\ Valid(regs,op)
                /\ hist[h].o = "inst" => ~(g \in Plain /\ \E x \in AtomsOf(regs[op.a]) : x.b \notin {"V","triv"})
                /\ ObsOk(kd,regs[RegOf(h)]) /\ ObsOk(kd,Result(regs,op))
             THEN Do(op) /\ hist' = hist \o <<Op(kd,RegOf(h),0,0,"",""), op, Op(kd,Len(regs)+1,0,0,"","")>>
             ELSE UNCHANGED <<regs,hist>>
\* several representations, combined twice in different orders: the same tensors and groups, other coordinates
RECURSIVE RunAll(_,_)
RunAll(rs,ops) == IF ops = <<>> THEN rs
                  ELSE IF Valid(rs,Head(ops)) THEN RunAll(Append(rs,Result(rs,Head(ops))), Tail(ops)) ELSE <<>>
\* from register base+1 on: the operands at positions o1, then folded in the order f
FoldOps(o,f,base) == [j \in 1..(Len(f)-1) |-> Op(o, IF j = 1 THEN f[1] ELSE base+j-1, f[j+1], 0, "", "")]
Asking == ObsKinds \cap {"basis","proj","look","look2","kry","kry2"}
Shuffle(o) == \E k \in {Pick(3..4)} : \E n0 \in {Len(regs)} :
   \E pi \in {Pick(Permutations(pool))} : \E dist \in {Pick(1..3)} :
   \E ps \in {SetToSeq(pool)} :
   \E ats \in {[j \in 1..k |-> LET g == IF dist > 1 /\ j <= Len(ps) THEN pi[ps[j]] ELSE Pick(pool)
                                IN IF Pick(1..3) = 1 THEN Op("T",Pick(1..2),Pick(0..1),0,g,"") ELSE Op("atom",0,0,1,g,"V")]} :
   \E du \in {IF Pick(1..2) = 1 THEN <<>> ELSE <<Op("dual",n0+Pick(1..k),0,0,"","")>>} :
   \E src \in {[j \in 1..k |-> IF du # <<>> /\ j = 1 THEN n0+k+1 ELSE IF regs # <<>> /\ Pick(1..6) = 1 THEN Pick(Recent) ELSE n0+j]} :
   \E f1 \in {Pick(Permutations(1..k))} :
   \E b1 \in {n0+k+Len(du)} :
   \E ops \in {ats \o du \o FoldOps(o,[j \in 1..k |-> src[j]],b1) \o FoldOps(o,[j \in 1..k |-> src[f1[j]]],b1+k-1)} :
   \E ob \in {IF Asking = {} THEN <<>> ELSE << Op(Pick(Asking),b1+k-1,0,0,"",""), Op(Pick(Asking),b1+2*k-2,0,0,"","") >>} :
   \E rs \in {RunAll(regs,ops)} :
   IF rs # <<>> /\ \A q \in DOMAIN ob : ObsOk(ob[q].o,rs[ob[q].a])
   THEN regs' = rs /\ hist' = hist \o ops \o ob
   ELSE UNCHANGED <<regs,hist>>
GenNext == \/ /\ pool = {}
              /\ pool' = Pick({RandomSubset(PoolSize, DOMAIN GT)} \cup IF Families = {} THEN {} ELSE {Pick(Families)})
              /\ UNCHANGED <<regs,hist,done>>
           \/ /\ Len(hist) < NOps /\ pool # {}
              /\ \E ob \in {Pick(1..6)} : IF ObsKinds # {} /\ regs # <<>> /\ ob <= 3 THEN (IF Families # {} /\ ob = 1 THEN Twin ELSE Obs)
                                            ELSE \E sh \in {Pick(1..ShuffleP)} : CASE sh = 1 -> Shuffle("add") [] sh = 2 -> Shuffle("mul") [] OTHER -> GenStep
              /\ UNCHANGED <<done,pool>>
           \/ /\ Len(hist) >= NOps /\ ~done
              /\ CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
              /\ done' = TRUE
              /\ UNCHANGED <<regs,hist,pool>>
=============================================================================
