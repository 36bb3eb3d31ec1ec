INIT CanonInit
NEXT CanonNext
CONSTANTS
 GT <- GTm
 AtomSeq <- AtomsM
 NOps = 3
 MaxDim = 12
 Ties = FALSE
INVARIANTS Faithful Unique Idempotent
