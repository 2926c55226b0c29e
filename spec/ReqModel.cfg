SPECIFICATION Spec
CONSTANTS
  Kind = "req"
  Ids = {0, 1, 255, 256, 65535}
  Many = 8
  Show = FALSE
  Every = 1
INVARIANTS AllOk
CHECK_DEADLOCK FALSE
