INIT Init
NEXT Next
CONSTANTS MaxLen = 2
          K = 3
          L = 2
INVARIANTS InLogOrder LearntIffMatched ValueIsMatchedMean Emit
CHECK_DEADLOCK FALSE
