INIT Init
NEXT Next
CONSTANTS MaxLen = 3
          Big = FALSE
INVARIANTS UnbiasedCandidate UpperBoundAboveDirect SlackShrinksWithDelta WidthNonNegative BiasIsDistance PermutationInvariant SlopeConsistent
INVARIANT Emit
CHECK_DEADLOCK FALSE
