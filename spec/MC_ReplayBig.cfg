INIT Init
NEXT Next
CONSTANTS MaxLen = 4
          K = 2
          L = 1
INVARIANTS InLogOrder LearntIffMatched ValueIsMatchedMean
CHECK_DEADLOCK FALSE
