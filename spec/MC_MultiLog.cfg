INIT Init
NEXT Next
CONSTANTS MaxLen = 3
          Big = FALSE
INVARIANTS LabelInvariant PermutationInvariant SingleStratumIsNaive WeightsAverageToOne ConvexCombination ZeroModelIsIpw PerfectModelIsDM SamePropensityIsNaive Finite
INVARIANT Emit
CHECK_DEADLOCK FALSE
