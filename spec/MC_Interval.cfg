INIT Init
NEXT Next
CONSTANTS MaxN = 3
          MaxB = 2
          Grid = {0, 1, 4}
INVARIANTS Ordered InHull Nested Degenerate JudgeAccepts JudgeRejects Distribution BinomialIsEnumeration BoundsBelowMean
CHECK_DEADLOCK FALSE
