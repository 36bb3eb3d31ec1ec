----------------------------- MODULE TraceRep -----------------------------
(* Validation of recorded runs of the representation algebra (C01-C04).     *)
EXTENDS TraceRepCore, RepGroups
TraceNext ==
  /\ i <= Len(Trace)
  /\ Report(RepVerdict(Trace[i])) = TRUE
  /\ StepRegs(Trace[i])
  /\ Progress
=============================================================================
