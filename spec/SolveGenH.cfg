INIT GenInit
NEXT GenNext
CONSTANTS
 GT <- GTs
 MaxSize = 32
 MaxLeaves = 5
 MaxRegs = 40
 Bases = {"V","V","V","det","psi","Ad","triv"}
 NOps = 40
 PoolSize = 3
 ObsKinds = {"proj","basis","look","look2"}
 Plain <- PlainGroups
 MaxElim = 36
 Families <- Confusable
 ShuffleP = 8
