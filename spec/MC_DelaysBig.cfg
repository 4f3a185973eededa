SPECIFICATION Spec
CONSTANTS MaxOps = 7
          MaxDelay = 3
INVARIANTS ExactlyOnce NeverLate FlushEmpties NoDelayIsImmediate
PROPERTIES NeverEarly OnlyAppends
CHECK_DEADLOCK FALSE
