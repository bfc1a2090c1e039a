SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Deep = TRUE
INVARIANTS Total Transitive SignMatters Emitted
CHECK_DEADLOCK FALSE
