INIT Init
NEXT Next
CONSTANTS MaxLen = 3
          MaxFits = 2
          K = 3
          L = 2
          Pss = {"1/2", "1"}
          Rs = {"0", "3/2"}
          Scores = {"0", "1/2", "2"}
          Taus = {"1/100", "1"}
INVARIANTS NoRoundTwice OwnRounds Whole NoRepeats ClosedForm FirstIsSoftmax TotalOne ModeSorts Cold
INVARIANT Emit
CHECK_DEADLOCK FALSE
