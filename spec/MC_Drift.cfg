INIT Init
NEXT Next
CONSTANTS MaxD = 4
          MaxT = 4
          Horizon = 7
INVARIANTS Refines SmoothHandOver TwoSeasons Emit
CHECK_DEADLOCK FALSE
