INIT Init
NEXT Next
CONSTANT MaxDim = 100000
