SPECIFICATION Spec
CONSTANTS MaxOps = 5
          MaxDelay = 3
INVARIANTS ExactlyOnce NeverLate FlushEmpties NoDelayIsImmediate
INVARIANT Emit
PROPERTIES NeverEarly OnlyAppends
CHECK_DEADLOCK FALSE
