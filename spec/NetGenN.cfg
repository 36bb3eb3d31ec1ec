INIT GenInit
NEXT NetNext
CONSTANTS
 GT <- GTs
 MaxSize = 16
 MaxLeaves = 5
 MaxRegs = 40
 Bases = {"V","V","V","det","psi","Ad","triv"}
 NOps = 30
 PoolSize = 3
 ObsKinds = {"net"}
 Plain <- PlainGroups
 MaxElim = 36
 Families <- Confusable
 ShuffleP = 8
 NetGroups <- SmallPool
 MaxIn = 9
 MaxOut = 9
 MaxProd = 64
 MaxHid = 12
 ObsShare = 3
 MaxObs = 4
