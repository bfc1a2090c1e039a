SPECIFICATION Fair
CONSTANTS
  Writes = 4
  Proxies = 2
  MaxProxies = 3
  Depth = 0
  Recorded = FALSE
INVARIANTS SameNext InOrder2 Once NeverRemoved
PROPERTIES FromCache Delivered Refines
CHECK_DEADLOCK FALSE
