INIT Init
NEXT Next
CONSTANTS MaxN = 7
          L = 2
          MaxFolds = 3
          Fresh = TRUE
          NActions = 1
INVARIANTS NoLeak SamePosition ExactlyOnce Reconstructed OneFoldKnowsAll
CHECK_DEADLOCK FALSE
