SPECIFICATION Spec
CONSTANTS
  Std = TRUE
  Deep = FALSE
INVARIANTS RoundTrip OtherOrder PrefixRejected Unambiguous Emitted
CHECK_DEADLOCK FALSE
