INIT Init
NEXT Next
CONSTANTS N = 3
          Big = FALSE
INVARIANTS RowsKept Partition DenseRanks BootFromTrain Emit
CHECK_DEADLOCK FALSE
