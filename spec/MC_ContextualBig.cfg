INIT Init
NEXT Next
CONSTANTS MaxOps = 4
          MaxB = 2
          Dim = 2
INVARIANTS Refines WidthShrinks
CHECK_DEADLOCK FALSE
