INIT Init
NEXT Next
CONSTANTS Kinds = {1, 2}
          Seeds = {1, 2}
          Calls = 4
          MaxNoise = 3
          Private = TRUE
INVARIANTS Reproducible InOrder
CHECK_DEADLOCK FALSE
