INIT Init
NEXT Next
CONSTANTS K = 3
          LogitSet = {"1/2", "-2"}
          Betas = {"0", "3", "-1"}
          Rhos = {"1", "1/3"}
          MaxN = 2
INVARIANTS Proper Monotone Shift Flat MixProper MixMarginal SizesExist TruncUp Unbiased Emit
CHECK_DEADLOCK FALSE
