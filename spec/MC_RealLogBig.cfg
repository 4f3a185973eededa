INIT Init
NEXT Next
CONSTANTS N = 3
          Big = TRUE
INVARIANTS RowsKept Partition DenseRanks BootFromTrain
CHECK_DEADLOCK FALSE
