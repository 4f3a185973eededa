SPECIFICATION Spec
CONSTANTS N = 4
          Thetas = {0, 1, 3, 5, 9}
          Ws = {0, 1, 2, 3}
INVARIANTS LoopIsDefinition AlwaysSelects AcceptedOverlap AgreementPicksNarrowest JudgeSound JudgeComplete PrefixCovered
CHECK_DEADLOCK FALSE
