INIT Init
NEXT Next
CONSTANTS Horizon = 8
          MaxReads = 2
INVARIANTS InStep AlignedStream HeldIsStream Emit
CHECK_DEADLOCK FALSE
