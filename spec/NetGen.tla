------------------------------- MODULE NetGen -------------------------------
(* Histories that build representations and layers, networks, augmentations  *)
(* and allocations from them.  The points at which a network is evaluated,   *)
(* and their images under generators, are computed here.                     *)
EXTENDS RepGen, SolveGroups, NetMachine
NV == INSTANCE Invariants
CONSTANTS MaxIn, MaxOut, MaxProd, MaxHid, NetGroups
XS == 1000
NetPool == DOMAIN GT \ {"U1","U2","SU2","SU3","C60","C420","D60","Rub","Zks22"}
SmallPool == {"Tri2","SO2","O2","SO3","O3","S2","S3","Z2","Z3","C4","D4","D3","C5","SO11p","O11","SO13p","GL2","SL2","Sca2","Sp1","EmbC","EmbA","Par","ZxS"}
RandSeq(n,S) == TLCEval([k \in 1..n |-> Pick(S)])
NOp(o,a,b,n,g,s) == Op(o,a,b,n,g,s)
One(t) == ~MixedTensor(t)
LayerOk(a,b) == /\ Conc(a) /\ Conc(b) /\ Size(a) <= MaxIn /\ Size(b) <= MaxOut /\ Size(a)*Size(b) <= MaxProd
PairObs(o) == \E a \in {Pick(DOMAIN regs)} : \E b \in {Pick(DOMAIN regs)} : \E bk \in {Pick(0..3)} :
   IF LayerOk(regs[a],regs[b]) /\ (o = "lin" => (ObsAllowed(MapsT(regs[a],regs[b])) /\ ObsAllowed(regs[b])))
   THEN hist' = Append(hist, NOp(o,a,b,bk,"","")) /\ UNCHANGED regs
   ELSE UNCHANGED <<regs,hist>>
GateObs == \E a \in {Pick(DOMAIN regs)} : \E bk \in {Pick(0..3)} :
   IF Conc(regs[a]) /\ One(regs[a]) /\ Size(regs[a]) <= 40 /\ Gates(regs[a]) <= 20
   THEN hist' = Append(hist, NOp("gate",a,0,bk,"","")) /\ UNCHANGED regs ELSE UNCHANGED <<regs,hist>>
GatedOp == \E a \in {Pick(Recent)} :
   IF Conc(regs[a]) /\ One(regs[a]) /\ Size(regs[a]) + Gates(regs[a]) <= 40
   THEN regs' = Append(regs,GatedT(regs[a])) /\ hist' = Append(hist,NOp("gated",a,0,0,"","")) ELSE UNCHANGED <<regs,hist>>
\* what the network, augmentation constructors do with a representation they are given
Given(t,g) == CanInst(t,g) /\ ~(g \in Plain /\ \E x \in AtomsOf(t) : x.b \notin {"V","triv"})
Img(t,g,x) == [d |-> [k \in DOMAIN Cat[g].disc |-> TLCEval([q \in DOMAIN x |-> NV!Act(t,g,Cat[g].disc[k],x,1,1)[q][1]])],
               l |-> LET n == Len(Cat[g].lie)
                         s == IF n <= 3 THEN [q \in 1..n |-> q] ELSE RandSeq(3,1..n)
                     IN [q \in DOMAIN s |-> LET v == TLCEval(NV!DAct(t,g,Cat[g].lie[s[q]],x,1,1)) IN [i |-> s[q], v |-> [z \in DOMAIN x |-> v[z][1]]]]]
Point(t,g) == LET x == TLCEval([k \in 1..Size(t) |-> <<XS*Pick({-2,-1,-1,0,1,1,2}),0>>])
              IN [x |-> [k \in DOMAIN x |-> x[k][1]], im |-> Img(t,g,x)]
HidOk(r,g) == Given(regs[r],g) /\ LET t == InstT(regs[r],g) IN Size(t) <= MaxHid /\ Leaves(t) <= 6
\* hidden layers: kind 1 = a number of channels, kind 2 = a representation
HidOne(g) == LET c == TLCEval([kind |-> Pick({1,1,2}), val |-> Pick(1..MaxHid)])
             IN IF c.kind = 1 THEN c ELSE LET S == {r \in DOMAIN regs : HidOk(r,g)} IN IF S = {} THEN [kind |-> 1, val |-> c.val] ELSE [kind |-> 2, val |-> Pick(S)]
NetObs == \E a \in {Pick(DOMAIN regs)} : \E b \in {Pick(DOMAIN regs)} : \E g \in {Pick(pool \cap NetGroups)} : \E bk \in {Pick(0..3)} : \E L \in {Pick({0,1,1,2,2})} : \E list \in {Pick(0..1)} :
   \E va \in {Pick({"plain","plain","ode","H","std","mlp"})} :
   IF Given(regs[a],g) /\ Given(regs[b],g) /\ Size(InstT(regs[a],g)) <= MaxIn /\ Size(InstT(regs[b],g)) <= MaxOut
   THEN \E t \in {InstT(regs[a],g)} :
        \E hid \in {TLCEval([k \in 1..(IF list = 1 THEN L ELSE 1) |-> HidOne(g)])} : \E pts \in {TLCEval([k \in 1..2 |-> Point(t,g)])} :
        hist' = Append(hist, [o |-> "net", a |-> a, b |-> b, n |-> bk, g |-> g, s |-> va, L |-> L, list |-> list, hid |-> hid, pts |-> pts]) /\ UNCHANGED regs
   ELSE UNCHANGED <<regs,hist>>
\* psi_n is a representation only of commuting groups
Abelian == {"SO2","S2","Z2","Z3","Z4","Z5","C3","C4","C5","Sca2","SO11p","Par","TR","EmbA","EmbB","EmbC","EmbF"}
Hom(t,g) == g \in Abelian \/ \A x \in AtomsOf(t) : x.b # "psi" \/ x.n = 1
AugObs == \E a \in {Pick(DOMAIN regs)} : \E b \in {Pick(DOMAIN regs)} : \E g \in {Pick(pool \cap NetGroups)} : \E n \in {Pick(1..4)} :
   IF Given(regs[a],g) /\ Given(regs[b],g) /\ Size(InstT(regs[a],g)) <= MaxIn /\ Size(InstT(regs[b],g)) <= MaxOut
   THEN hist' = Append(hist, NOp("aug",a,b,n,g,IF Hom(InstT(regs[a],g),g) /\ Hom(InstT(regs[b],g),g) THEN "eq" ELSE "")) /\ UNCHANGED regs ELSE UNCHANGED <<regs,hist>>
AllocObs == \E g \in {Pick(DOMAIN GT)} : \E k \in {Pick(1..4)} : \E c \in {Pick(1..6)} : \E big \in {Pick(1..600)} : \E sm \in {Pick(1..30)} :
   hist' = Append(hist, NOp("alloc",0,0,IF GT[g].d = 1 THEN sm ELSE IF k = 1 THEN c ELSE IF k = 2 THEN big ELSE IF k = 3 THEN sm ELSE ((sm % 5) + 1)*GT[g].d,g,"")) /\ UNCHANGED regs
NetStep == \E kd \in {Pick(ObsKinds)} :
   CASE kd \in {"lin","bil"} -> PairObs(kd)
     [] kd \in {"gate","gate2"} -> GateObs
     [] kd = "gated" -> GatedOp
     [] kd = "net" -> NetObs
     [] kd = "aug" -> AugObs
     [] kd = "alloc" -> AllocObs
CONSTANTS ObsShare, MaxObs
Asked == Cardinality({k \in DOMAIN hist : hist[k].o \in ObsKinds})
NetNext ==
  \/ /\ pool = {}
     /\ pool' = Pick({RandomSubset(PoolSize, NetGroups)} \cup IF Families = {} THEN {} ELSE {Pick(Families)})
     /\ pool' \cap NetGroups # {}
     /\ UNCHANGED <<regs,hist,done>>
  \/ /\ pool # {} /\ Len(hist) < NOps /\ Asked < MaxObs
     /\ \E ob \in {Pick(1..6)} : IF "alloc" \in ObsKinds THEN AllocObs
                                 ELSE IF Len(regs) > 2 /\ ob <= ObsShare THEN NetStep
                                 ELSE \E sh \in {Pick(1..ShuffleP)} : CASE sh = 1 -> Shuffle("add") [] sh = 2 -> Shuffle("mul") [] OTHER -> GenStep
     /\ UNCHANGED <<done,pool>>
  \/ /\ Len(hist) >= NOps \/ Asked >= MaxObs
     /\ ~done
     /\ CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
     /\ done' = TRUE
     /\ UNCHANGED <<regs,hist,pool>>
=============================================================================
