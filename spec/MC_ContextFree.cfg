INIT Init
NEXT Next
CONSTANTS K = 2
          MaxOps = 5
          MaxB = 3
INVARIANTS Refines CommittedBehind Emit
CHECK_DEADLOCK FALSE
