INIT Init
NEXT Next
CONSTANTS MaxD = 6
          MaxT = 7
          Horizon = 10
INVARIANTS Refines SmoothHandOver TwoSeasons
CHECK_DEADLOCK FALSE
