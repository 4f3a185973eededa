INIT Init
NEXT Next
CONSTANTS MaxDefects = 2
INVARIANTS Monotone OneBad
INVARIANT Emit
CHECK_DEADLOCK FALSE
