INIT GenInit
NEXT GenNext
CONSTANTS
 MaxDim = 12
 MaxEntry = 2000
 NOps = 22
INVARIANT IvOk
