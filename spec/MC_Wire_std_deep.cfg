SPECIFICATION Spec
CONSTANTS
  Std = TRUE
  Deep = TRUE
INVARIANTS RoundTrip OtherOrder PrefixRejected Unambiguous Emitted
CHECK_DEADLOCK FALSE
