SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Starts <- TheStarts
  Items = {1, 2, 3}
INVARIANTS Consecutive AsAsked ExactlyAdded Emitted
CHECK_DEADLOCK FALSE
