INIT Init
NEXT Next
CONSTANTS MaxN = 4
          L = 2
          MaxFolds = 3
          Fresh = TRUE
          NActions = 2
INVARIANTS NoLeak SamePosition ExactlyOnce Reconstructed OneFoldKnowsAll
INVARIANT Emit
CHECK_DEADLOCK FALSE
