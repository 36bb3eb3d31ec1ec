INIT GenInit
NEXT GenNext
CONSTANTS
 MaxDim = 12
 NOps = 24
 Asks = {"gens"}
