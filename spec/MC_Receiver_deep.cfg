SPECIFICATION Spec
CONSTANTS
  Std = FALSE
  Depth = 3
  Cuts = {}
INVARIANTS
  Admission Framing ItemsAreEntities SourceInForce DestinationInForce RepliesInForce
  TimestampInForce Deterministic NoLeak Emitted
PROPERTY AwaitIsIdle
CHECK_DEADLOCK FALSE
