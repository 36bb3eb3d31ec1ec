INIT Init
NEXT Next
CONSTANTS
 Grps = {"G","H"}
 Bases = {"V","W"}
 MaxLen = 2
 KeyOf <- KeyFull
 Rearrange <- InWritten
INVARIANT NoStale
PROPERTY Stable
