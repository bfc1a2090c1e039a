SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Second = "few"
INVARIANTS Lockstep Punctual Emitted
PROPERTIES SameItems IdleWait Stepwise
CHECK_DEADLOCK FALSE
