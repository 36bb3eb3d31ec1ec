SPECIFICATION Spec
CONSTANTS
 MaxCh = 30
 MaxD = 5
 Broken = 1
INVARIANT NeverOver
