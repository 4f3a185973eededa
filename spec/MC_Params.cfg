INIT Init
NEXT Next
INVARIANTS Sound Inside
INVARIANT Emit
CHECK_DEADLOCK FALSE
