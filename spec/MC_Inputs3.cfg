INIT Init
NEXT Next
CONSTANTS MaxDefects = 3
INVARIANTS Monotone OneBad
CHECK_DEADLOCK FALSE
