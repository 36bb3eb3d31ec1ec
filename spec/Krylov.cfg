SPECIFICATION Spec
CONSTANTS
 MaxDim = 170
 R0 = 5
 MaxLr = 4
 MemR = 400
 Again <- Full
INVARIANTS Complete NeverTooMany
PROPERTY Terminates
