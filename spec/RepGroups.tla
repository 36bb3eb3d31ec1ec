----------------------------- MODULE RepGroups -----------------------------
(* The groups the expression machine ranges over: dimension and whether the  *)
(* library documents them as orthogonal / permutation groups.                *)
EXTENDS TLC
Grp(d,o,p) == [d |-> d, orth |-> o, perm |-> p]
GTc == "SL2" :> Grp(2,0,0) @@ "GL2" :> Grp(2,0,0) @@ "SL3" :> Grp(3,0,0) @@ "SO11p" :> Grp(2,0,0)
    @@ "SO2" :> Grp(2,1,0) @@ "O3" :> Grp(3,1,0) @@ "S3" :> Grp(3,1,1) @@ "Z2" :> Grp(2,1,1)
    @@ "SLxSL" :> Grp(4,0,0) @@ "GLxZ" :> Grp(4,0,0) @@ "SOxO" :> Grp(6,1,0)
\* groups of the same dimension
SameDim == {{"SL2","GL2","SO11p","SO2","Z2"},{"SLxSL","GLxZ"},{"SL3","O3","S3"},{"SL2","GL2","SO11p"}}
=============================================================================
