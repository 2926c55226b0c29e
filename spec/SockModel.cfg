SPECIFICATION Spec
CONSTANTS
  Sessions = {0, 1}
  Conns = {0, 1}
  Steps = 3
  Show = FALSE
  Every = 1
INVARIANTS SessionsBalance NoOrphans
CHECK_DEADLOCK FALSE
