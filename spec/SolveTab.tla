------------------------------ MODULE SolveTab ------------------------------
(* Dimension, orthogonality and permutation property of the groups of the    *)
(* solver checks, as a table; SolveGroups proves it of the definitions.      *)
EXTENDS TLC
Grp(d,o,p) == [d |-> d, orth |-> o, perm |-> p]
GTs == "Tri2" :> Grp(2,1,1) @@ "SO2" :> Grp(2,1,0) @@ "SO3" :> Grp(3,1,0) @@ "O2" :> Grp(2,1,0) @@ "O3" :> Grp(3,1,0)
   @@ "SO4" :> Grp(4,1,0) @@ "S2" :> Grp(2,1,1) @@ "S3" :> Grp(3,1,1) @@ "S4" :> Grp(4,1,1) @@ "Z2" :> Grp(2,1,1)
   @@ "Z3" :> Grp(3,1,1) @@ "Z4" :> Grp(4,1,1) @@ "Z5" :> Grp(5,1,1) @@ "C3" :> Grp(2,1,0) @@ "C4" :> Grp(2,1,0)
   @@ "C5" :> Grp(2,1,0) @@ "C60" :> Grp(2,1,0) @@ "C420" :> Grp(2,1,0) @@ "D60" :> Grp(2,1,0) @@ "D3" :> Grp(2,1,0) @@ "D4" :> Grp(2,1,0) @@ "D6" :> Grp(2,1,0) @@ "Sca2" :>
   Grp(2,0,0) @@ "Par" :> Grp(4,1,0) @@ "TR" :> Grp(4,1,0) @@ "SO13p" :> Grp(4,0,0) @@ "SO13" :> Grp(4,0,0) @@
   "O13" :> Grp(4,0,0) @@ "SO11p" :> Grp(2,0,0) @@ "O11" :> Grp(2,0,0) @@ "GL2" :> Grp(2,0,0) @@ "SL2" :>
   Grp(2,0,0) @@ "SL3" :> Grp(3,0,0) @@ "Sp1" :> Grp(2,0,0) @@ "Sp2" :> Grp(4,0,0) @@ "U1" :> Grp(1,0,0) @@ "U2"
   :> Grp(2,0,0) @@ "SU2" :> Grp(2,0,0) @@ "SU3" :> Grp(3,0,0) @@ "Cube" :> Grp(6,1,1) @@ "Zks22" :> Grp(8,1,1)
   @@ "EmbA" :> Grp(4,1,1) @@ "EmbB" :> Grp(4,1,1) @@ "EmbC" :> Grp(3,1,0) @@ "EmbD" :> Grp(3,1,0) @@ "EmbE" :>
   Grp(3,0,0) @@ "EmbF" :> Grp(3,1,0) @@ "ZxS" :> Grp(6,1,1) @@ "SxZ" :> Grp(6,1,1) @@ "SOxS" :> Grp(4,1,0) @@
   "SLxZ" :> Grp(4,0,0) @@ "Rub" :> Grp(48,1,1)
\* groups whose generators are not real integers (or act on tensor products): only their base representation is used
PlainGroups == {"C3", "C4", "C5", "C60", "C420", "D60", "D3", "D4", "D6", "U1", "U2", "SU2", "SU3", "EmbD", "ZxS", "SxZ", "SOxS", "SLxZ"}
\* groups with the same text, dimension or kind of generators: mixing up their solutions is easy
Confusable == {{"EmbA","EmbB"},{"EmbC","EmbF"},{"EmbC","EmbF","EmbD"},{"ZxS","SxZ"},{"SO13p","SO13","O13"},{"Par","TR"},
   {"SO11p","O11","SL2"},{"S2","Z2"},{"S3","Z3"},{"S4","Z4","EmbA"},{"C3","D3","C4"},{"C5","C60","C420"},{"SO2","O2"},
   {"SO3","O3","EmbF"},{"GL2","SL2","Sca2"},{"Sp1","SL2"},{"U2","SU2"},{"EmbE","SL3"},{"Tri2","SO2"},{"SLxZ","SOxS"},{"Cube","ZxS"}}
\* constraints with small singular values: the iterative solver may give up on them
FineGroups == {"C60","C420","D60"}
\* no operation of a history should make a question about one of them depend on the other
=============================================================================
