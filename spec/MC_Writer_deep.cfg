SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Starts <- TheStarts
  Items = {1, 2, 3}
INVARIANTS Consecutive AsAsked ExactlyAdded Emitted
CHECK_DEADLOCK FALSE
