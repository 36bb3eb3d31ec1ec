SPECIFICATION Spec
CONSTANTS
 MaxCh = 60
 MaxD = 5
 Broken = 0
INVARIANT Exact
INVARIANT NeverOver
INVARIANT Done
PROPERTY Decreases
