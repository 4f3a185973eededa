SPECIFICATION Spec
CONSTANTS N = 3
          Thetas = {0, 1, 2, 5}
          Ws = {0, 1, 2}
INVARIANTS LoopIsDefinition AlwaysSelects AcceptedOverlap AgreementPicksNarrowest JudgeSound JudgeComplete PrefixCovered
PROPERTY Termination
CHECK_DEADLOCK FALSE
