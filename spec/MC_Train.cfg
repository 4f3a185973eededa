INIT Init
NEXT Next
CONSTANTS MaxN = 4
          MaxBatch = 4
          MaxIter = 2
          MaxPatience = 2
          Losses = {"0", "1", "5/4"}
INVARIANTS HeldOut OncePerEpoch StopsExactly NoEarlierStop Batches
INVARIANT Emit
CHECK_DEADLOCK FALSE
