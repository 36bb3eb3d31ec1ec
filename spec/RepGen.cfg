INIT GenInit
NEXT GenNext
CONSTANTS
 GT <- GTc
 MaxSize = 40
 MaxLeaves = 6
 MaxRegs = 40
 Bases = {"V","det","psi","Ad","triv"}
 NOps = 14
 PoolSize = 4
 ObsKinds = {}
 Plain = {}
 MaxElim = 1
 Families <- SameDim
 ShuffleP = 8
