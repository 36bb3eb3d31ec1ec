INIT GenInit
NEXT GenNext
CONSTANTS
 GT <- GTs
 MaxSize = 108
 MaxLeaves = 5
 MaxRegs = 40
 Bases = {"V","V","V","det","psi","Ad","triv"}
 NOps = 12
 PoolSize = 3
 ObsKinds = {"proj"}
 Plain <- PlainGroups
 MaxElim = 36
 Families <- Confusable
 ShuffleP = 4
