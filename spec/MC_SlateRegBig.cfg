INIT Init
NEXT Next
CONSTANTS MaxSlates = 2
          L = 2
          Rs = {"0", "1"}
          Ds = {"0", "1/4", "1"}
INVARIANTS LastSlotIsReward Bounded Constant Backwards
CHECK_DEADLOCK FALSE
