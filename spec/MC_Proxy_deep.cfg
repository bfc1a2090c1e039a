SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Lists <- DeepLists
  Proxies = 2
INVARIANTS Increasing Emitted
PROPERTY Correct
CHECK_DEADLOCK FALSE
