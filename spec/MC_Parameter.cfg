SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  MaxLength = 13
INVARIANTS Aligned ReadBack Unambiguous AlreadyPadded Emitted
CHECK_DEADLOCK FALSE
