INIT Init
NEXT Next
CONSTANTS K = 2
          MaxOps = 7
          MaxB = 3
INVARIANTS Refines CommittedBehind
CHECK_DEADLOCK FALSE
