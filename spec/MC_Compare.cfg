SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Deep = FALSE
INVARIANTS Total Transitive SignMatters Emitted
CHECK_DEADLOCK FALSE
