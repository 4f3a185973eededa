INIT Init
NEXT Next
CONSTANTS N = 5
          Alphabet = {"-1", "3", "7", "10"}
          Alphas = {"0", "3/4"}
INVARIANTS Proper Dense TrueClassValueOne UniformValue LoggedSupported RewardUnbiased
CHECK_DEADLOCK FALSE
