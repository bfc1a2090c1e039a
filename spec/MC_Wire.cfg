SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Deep = FALSE
INVARIANTS RoundTrip OtherOrder PrefixRejected Unambiguous Emitted
CHECK_DEADLOCK FALSE
