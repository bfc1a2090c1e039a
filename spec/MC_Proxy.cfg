SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Lists <- QuickLists
  Proxies = 2
INVARIANTS Increasing Emitted
PROPERTY Correct
CHECK_DEADLOCK FALSE
