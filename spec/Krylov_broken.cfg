SPECIFICATION Spec
CONSTANTS
 MaxDim = 30
 R0 = 5
 MaxLr = 2
 MemR = 400
 Again <- Stop
INVARIANTS Complete
