SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Guids = {0, 1, 2, 3}
INVARIANTS Partition Emitted
CHECK_DEADLOCK FALSE
