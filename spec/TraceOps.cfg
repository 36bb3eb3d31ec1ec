INIT Init
NEXT Next
CONSTANTS
 MaxDim = 100000
 MaxEntry = 2000000
