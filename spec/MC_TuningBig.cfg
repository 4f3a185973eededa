INIT Init
NEXT Next
CONSTANTS MaxLen = 3
          Big = TRUE
INVARIANTS UnbiasedCandidate UpperBoundAboveDirect SlackShrinksWithDelta WidthNonNegative BiasIsDistance PermutationInvariant SlopeConsistent
CHECK_DEADLOCK FALSE
