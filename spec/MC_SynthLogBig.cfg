INIT Init
NEXT Next
CONSTANTS K = 3
          LogitSet = {"0", "1/2", "-2", "5"}
          Betas = {"0", "3", "-1", "1/7"}
          Rhos = {"1", "1/3", "0"}
          MaxN = 4
INVARIANTS Proper Monotone Shift Flat MixProper MixMarginal SizesExist TruncUp Unbiased
CHECK_DEADLOCK FALSE
