INIT Init
NEXT Next
CONSTANTS NSl = 2
          MaxRows = 3
INVARIANTS OrderIrrelevant LabelsIrrelevant ZeroQIsRips ConstantReward OnPolicyIsMean SumOfSlates Telescopes
INVARIANT Emit
CHECK_DEADLOCK FALSE
