INIT Init
NEXT Next
CONSTANTS MaxLen = 3
          Big = TRUE
INVARIANTS LabelInvariant PermutationInvariant SingleStratumIsNaive WeightsAverageToOne ConvexCombination ZeroModelIsIpw PerfectModelIsDM SamePropensityIsNaive Finite
CHECK_DEADLOCK FALSE
