INIT Init
NEXT Next
CONSTANTS MaxLen = 4
          MaxFits = 2
          K = 3
          L = 2
          Pss = {"1/2", "1"}
          Rs = {"0", "3/2"}
          Scores = {"0", "1/2", "2", "1/3"}
          Taus = {"1/100", "1", "50"}
INVARIANTS NoRoundTwice OwnRounds Whole NoRepeats ClosedForm FirstIsSoftmax TotalOne ModeSorts Cold
CHECK_DEADLOCK FALSE
