INIT Init
NEXT Next
CONSTANTS MaxLen = 2
          Big = FALSE
INVARIANTS Unbiased MeanWeightIsOne Identifying Uninformative OnPolicy SelfNormalisedInRange SelectionInRange
INVARIANT Emit
CHECK_DEADLOCK FALSE
