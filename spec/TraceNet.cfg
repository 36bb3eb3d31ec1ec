INIT SolveInit
NEXT NetTraceNext
CONSTANTS
 GT <- GTs
 MaxSize = 1000000
 MaxLeaves = 1000000
 MaxRegs = 1000000
 Bases = {"V"}
