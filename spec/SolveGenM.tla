----------------------------- MODULE SolveGenM -----------------------------
(* Histories of the representation machine that also ask for solutions.      *)
EXTENDS RepGen, SolveTab
=============================================================================
