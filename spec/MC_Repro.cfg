INIT Init
NEXT Next
CONSTANTS Kinds = {1, 2}
          Seeds = {1, 2}
          Calls = 3
          MaxNoise = 2
          Private = TRUE
INVARIANTS Reproducible InOrder
INVARIANT Emit
CHECK_DEADLOCK FALSE
