INIT GenInit
NEXT GenNext
CONSTANTS
 GT <- GTc
 MaxSize = 10
 MaxLeaves = 4
 MaxRegs = 40
 Bases = {"V","det","psi","Ad","triv"}
 NOps = 36
 PoolSize = 2
 ObsKinds = {}
 Plain = {}
 MaxElim = 1
 Families <- SameDim
 ShuffleP = 8
