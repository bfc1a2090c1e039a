SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Depth = 2
  More <- Units
  Missing = {0, 1, 4, 9}
INVARIANTS GivesExactly GivesPrefix Ready AsFresh EndOrProgress Emitted
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
