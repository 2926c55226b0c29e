SPECIFICATION Spec
CONSTANTS
  Socks = {0}
  Kinds = {"tcp", "udp", "bound"}
  Steps = 3
  Show = FALSE
  Every = 1
INVARIANTS NothingInvented AllAccounted
CHECK_DEADLOCK FALSE
