INIT Init
NEXT Next
CONSTANTS MaxN = 3
          MaxB = 3
          Grid = {0, 1, 3, 6}
INVARIANTS Ordered InHull Nested Degenerate JudgeAccepts JudgeRejects Distribution BinomialIsEnumeration BoundsBelowMean
CHECK_DEADLOCK FALSE
