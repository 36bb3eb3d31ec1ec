INIT GenInit
NEXT NetNext
CONSTANTS
 GT <- GTs
 MaxSize = 64
 MaxLeaves = 5
 MaxRegs = 40
 Bases = {"V","V","V","det","psi","Ad","triv"}
 NOps = 40
 PoolSize = 3
 ObsKinds = {"alloc"}
 Plain <- PlainGroups
 MaxElim = 36
 Families <- Confusable
 ShuffleP = 8
 NetGroups <- NetPool
 MaxIn = 12
 MaxOut = 12
 MaxProd = 64
 MaxHid = 12
 ObsShare = 3
 MaxObs = 40
