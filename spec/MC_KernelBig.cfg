INIT Init
NEXT Next
CONSTANTS MaxLen = 2
          Big = TRUE
INVARIANTS Symmetric Support Density ShiftInvariant PermutationInvariant OutsideIgnored ZeroModelIsIpw PerfectModelIsDm SelfNormalisedInRange ScaleFree
CHECK_DEADLOCK FALSE
