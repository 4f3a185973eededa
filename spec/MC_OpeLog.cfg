INIT Init
NEXT Next
CONSTANTS MaxLen = 2
          Big = FALSE
INVARIANTS UnclippedAtInfinity ZeroModelIsIPW SwitchAtZeroIsDM LimitsOfDR PerfectModelIsDM SelfNormalisedInRange BalancedIsSNIPW ReplayInRange NeverNaN WeightsShrink PermutationInvariant DuplicationInvariant
INVARIANT Emit
CHECK_DEADLOCK FALSE
