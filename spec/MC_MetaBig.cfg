INIT Init
NEXT Next
CONSTANTS MaxCalls = 2
          Names = {"a", "ab", "b"}
          Big = TRUE
INVARIANTS OwnValue Alone OrderFree HistoryFree Missing
CHECK_DEADLOCK FALSE
