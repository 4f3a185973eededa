INIT Init
NEXT Next
CONSTANTS Horizon = 6
          MaxReads = 1
INVARIANTS InStep AlignedStream HeldIsStream Emit
CHECK_DEADLOCK FALSE
