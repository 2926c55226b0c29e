SPECIFICATION Spec
CONSTANTS
  Kinds = {"udp", "bound", "disc", "handle", "conn"}
  Most = 2
  Times = {0, 1, 50, 99, 100, 150, 199}
  Ats = {0, 1, 50, 100, 120, 180}
  Show = FALSE
  Every = 1
INVARIANTS NothingLost NothingElse Ends Agrees AgreesDisc
CHECK_DEADLOCK FALSE
