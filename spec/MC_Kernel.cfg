INIT Init
NEXT Next
CONSTANTS MaxLen = 2
          Big = FALSE
INVARIANTS Symmetric Support ShiftInvariant PermutationInvariant OutsideIgnored ZeroModelIsIpw PerfectModelIsDm SelfNormalisedInRange ScaleFree
INVARIANT Emit
CHECK_DEADLOCK FALSE
