SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Depth = 2
  More <- Few
  Missing = {0, 1, 4}
INVARIANTS GivesExactly GivesPrefix Ready AsFresh EndOrProgress Emitted
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
