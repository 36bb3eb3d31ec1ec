INIT CanonInit
NEXT CanonNext
CONSTANTS
 GT <- GTm
 AtomSeq <- AtomsM
 NOps = 2
 MaxDim = 12
 Ties = FALSE
INVARIANTS Faithful Unique Idempotent
