SPECIFICATION Spec
CONSTANTS
  Std = TRUE
  Depth = 2
  Cuts = {1, 4, 13}
INVARIANTS
  Admission Framing ItemsAreEntities SourceInForce DestinationInForce RepliesInForce
  TimestampInForce Deterministic NoLeak Emitted
PROPERTY AwaitIsIdle
CHECK_DEADLOCK FALSE
