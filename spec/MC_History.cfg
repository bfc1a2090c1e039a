SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Ns <- QuickNs
INVARIANTS HoldsExactly Bounds Emitted
PROPERTY OthersStay
CHECK_DEADLOCK FALSE
