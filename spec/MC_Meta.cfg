INIT Init
NEXT Next
CONSTANTS MaxCalls = 2
          Names = {"a", "ab", "b"}
          Big = FALSE
INVARIANTS OwnValue Alone OrderFree HistoryFree Missing
INVARIANT Emit
CHECK_DEADLOCK FALSE
