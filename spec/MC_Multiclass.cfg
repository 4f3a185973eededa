INIT Init
NEXT Next
CONSTANTS N = 4
          Alphabet = {"-1", "3", "7"}
          Alphas = {"0", "3/4"}
INVARIANTS Proper Dense TrueClassValueOne UniformValue LoggedSupported RewardUnbiased Emit
CHECK_DEADLOCK FALSE
