INIT Init
NEXT Next
CONSTANTS MaxLen = 1
          Big = TRUE
INVARIANTS Unbiased MeanWeightIsOne Identifying Uninformative OnPolicy SelfNormalisedInRange SelectionInRange
CHECK_DEADLOCK FALSE
