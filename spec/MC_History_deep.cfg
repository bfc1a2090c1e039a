SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Ns <- DeepNs
INVARIANTS HoldsExactly Bounds Emitted
PROPERTY OthersStay
CHECK_DEADLOCK FALSE
