SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Second = "all"
INVARIANTS Lockstep Punctual Emitted
PROPERTIES SameItems IdleWait Stepwise
CHECK_DEADLOCK FALSE
