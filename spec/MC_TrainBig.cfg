INIT Init
NEXT Next
CONSTANTS MaxN = 5
          MaxBatch = 4
          MaxIter = 3
          MaxPatience = 2
          Losses = {"0", "1", "5/4"}
INVARIANTS HeldOut OncePerEpoch StopsExactly NoEarlierStop Batches
CHECK_DEADLOCK FALSE
