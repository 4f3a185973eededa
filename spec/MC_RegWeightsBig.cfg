INIT Init
NEXT Next
CONSTANTS MaxLen = 3
          Pss = {"1", "1/4"}
          Pis = {"0", "1/4", "1"}
          Rs = {"0", "1"}
INVARIANTS Once NonNegative ZeroWeight OnPolicy Related
CHECK_DEADLOCK FALSE
