INIT Init
NEXT Next
CONSTANTS MaxOps = 5
          MaxB = 2
          Dim = 1
INVARIANTS Refines WidthShrinks Emit
CHECK_DEADLOCK FALSE
