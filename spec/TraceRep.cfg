INIT TraceInit
NEXT TraceNext
CONSTANTS
 GT <- GTc
 MaxSize = 1000000
 MaxLeaves = 1000000
 MaxRegs = 1000000
 Bases = {"V"}
