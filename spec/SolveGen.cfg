INIT GenInit
NEXT GenNext
CONSTANTS
 GT <- GTs
 MaxSize = 64
 MaxLeaves = 5
 MaxRegs = 40
 Bases = {"V","V","V","det","psi","Ad","triv"}
 NOps = 20
 PoolSize = 3
 ObsKinds = {"basis"}
 Plain <- PlainGroups
 MaxElim = 36
 Families <- Confusable
 ShuffleP = 8
