INIT Init
NEXT Next
CONSTANTS
 Grps = {"G","H"}
 Bases = {"V","W"}
 MaxLen = 2
 KeyOf <- KeyNoGroup
 Rearrange <- InWritten
INVARIANT NoStale
