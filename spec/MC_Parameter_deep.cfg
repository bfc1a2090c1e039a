SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  MaxLength = 70
INVARIANTS Aligned ReadBack Unambiguous AlreadyPadded Emitted
CHECK_DEADLOCK FALSE
