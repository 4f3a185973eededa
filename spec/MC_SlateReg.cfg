INIT Init
NEXT Next
CONSTANTS MaxSlates = 1
          L = 3
          Rs = {"0", "1"}
          Ds = {"0", "1/4", "1"}
INVARIANTS LastSlotIsReward Bounded Constant Backwards
INVARIANT Emit
CHECK_DEADLOCK FALSE
