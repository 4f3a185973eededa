INIT Init
NEXT Next
CONSTANTS MaxOps = 3
          MaxB = 2
          Dim = 2
INVARIANTS Refines WidthShrinks Emit
CHECK_DEADLOCK FALSE
