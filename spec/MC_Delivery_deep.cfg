SPECIFICATION Spec
CONSTANTS
  Writes = 4
  Proxies = 1
  MaxProxies = 2
  Depth = 9
  Recorded = TRUE
INVARIANTS SameNext InOrder2 Once NeverRemoved Emitted
PROPERTY FromCache
CHECK_DEADLOCK FALSE
