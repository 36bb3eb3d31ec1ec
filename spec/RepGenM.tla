------------------------------ MODULE RepGenM ------------------------------
EXTENDS RepGen, RepGroups
=============================================================================
