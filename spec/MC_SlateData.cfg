INIT Init
NEXT Next
CONSTANTS K = 3
          L = 3
          Ws = {1, 2, 5}
          Qs = {"0", "1/2", "2/3"}
          As = {"1", "1/2", "0"}
INVARIANTS ProbIsCascade SlatesNormalised PrefixIsSumOfSlates SlotMarginals DistinctUnlessFactorizable ClickMoments Emit
CHECK_DEADLOCK FALSE
