SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Depth = 3
  Distances <- QuickDistances
INVARIANTS Exactly Ordered IterationDetermined Emitted
PROPERTIES WireKeeps AcceptChanges
CHECK_DEADLOCK FALSE
