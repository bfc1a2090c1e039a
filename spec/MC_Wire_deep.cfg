SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Deep = TRUE
INVARIANTS RoundTrip OtherOrder PrefixRejected Unambiguous Emitted
CHECK_DEADLOCK FALSE
