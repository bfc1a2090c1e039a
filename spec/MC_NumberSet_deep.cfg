SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Depth = 4
  Distances <- DeepDistances
INVARIANTS Exactly Ordered IterationDetermined Emitted
PROPERTIES WireKeeps AcceptChanges
CHECK_DEADLOCK FALSE
