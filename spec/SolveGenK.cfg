INIT GenInit
NEXT GenNext
CONSTANTS
 GT <- GTs
 MaxSize = 64
 MaxLeaves = 4
 MaxRegs = 40
 Bases = {"V","V","V","det","psi","Ad","triv"}
 NOps = 20
 PoolSize = 3
 ObsKinds = {"kry","kry2"}
 Plain <- PlainGroups
 MaxElim = 64
 Families <- Confusable
 ShuffleP = 8
