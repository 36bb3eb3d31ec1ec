---------------------------- MODULE SolveGroups ----------------------------
(* The catalogue of groups of the solver checks.                             *)
EXTENDS Groups, SolveTab
Cat == TLCEval(
  "Tri2" :> DefTrivial(2) @@ "SO2" :> DefSO(2) @@ "SO3" :> DefSO(3) @@ "O2" :> DefO(2) @@ "O3" :> DefO(3) @@ "SO4" :> DefSO(4)
  @@ "S2" :> DefS(2) @@ "S3" :> DefS(3) @@ "S4" :> DefS(4) @@ "Z2" :> DefZ(2) @@ "Z3" :> DefZ(3) @@ "Z4" :> DefZ(4) @@ "Z5" :> DefZ(5)
  @@ "C3" :> DefC(3) @@ "C4" :> DefC(4) @@ "C5" :> DefC(5) @@ "C60" :> DefC(60) @@ "C420" :> DefC(420) @@ "D60" :> DefD(60) @@ "D3" :> DefD(3) @@ "D4" :> DefD(4) @@ "D6" :> DefD(6)
  @@ "Sca2" :> DefScaling(2) @@ "Par" :> DefParity @@ "TR" :> DefTime
  @@ "SO13p" :> DefSO13p @@ "SO13" :> DefSO13 @@ "O13" :> DefO13 @@ "SO11p" :> DefSO11p @@ "O11" :> DefO11
  @@ "GL2" :> DefGL(2) @@ "SL2" :> DefSL(2) @@ "SL3" :> DefSL(3) @@ "Sp1" :> DefSp(1) @@ "Sp2" :> DefSp(2)
  @@ "U1" :> DefU(1) @@ "U2" :> DefU(2) @@ "SU2" :> DefSU(2) @@ "SU3" :> DefSU(3) @@ "Cube" :> DefCube @@ "Zks22" :> DefZks(2,2)
  @@ "EmbA" :> DefEmbed(DefS(2),0,4) @@ "EmbB" :> DefEmbed(DefS(2),2,4) @@ "EmbC" :> DefEmbed(DefSO(2),1,3) @@ "EmbD" :> DefEmbed(DefD(3),0,3)
  @@ "EmbE" :> DefEmbed(DefSL(2),0,3) @@ "EmbF" :> DefEmbed(DefSO(2),0,3)
  @@ "ZxS" :> DefTimes(DefZ(2),DefS(3)) @@ "SxZ" :> DefTimes(DefS(3),DefZ(2)) @@ "SOxS" :> DefTimes(DefSO(2),DefS(2))
  @@ "SLxZ" :> DefTimes(DefSL(2),DefZ(2)) @@ "Rub" :> DefRubik )
ASSUME TableRight == LET right(g) == GTs[g] = [d |-> Cat[g].d, orth |-> IF OrthDef(Cat[g]) THEN 1 ELSE 0, perm |-> IF PermDef(Cat[g]) THEN 1 ELSE 0]
                     IN DOMAIN GTs = DOMAIN Cat /\ \A g \in DOMAIN Cat : right(g)
ASSUME PlainRight == PlainGroups = {g \in DOMAIN Cat : Cat[g].sc # 1 \/ IsComplex(Cat[g])} \cup {"ZxS","SxZ","SOxS","SLxZ"}
\* the discrete generators are orthogonal matrices: their inverse transpose is themselves
ASSUME DiscOrth == \A g \in DOMAIN Cat : \A h \in Range(Cat[g].disc) : RowsEq(SpMul(SpT(h.p,Cat[g].d),h.p), SpId(Cat[g].d))
=============================================================================
