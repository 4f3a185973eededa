INIT Init
NEXT Next
CONSTANTS MaxLen = 2
          Big = TRUE
INVARIANTS UnclippedAtInfinity ZeroModelIsIPW SwitchAtZeroIsDM LimitsOfDR PerfectModelIsDM SelfNormalisedInRange BalancedIsSNIPW ReplayInRange NeverNaN WeightsShrink PermutationInvariant DuplicationInvariant
CHECK_DEADLOCK FALSE
