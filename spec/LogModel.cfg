SPECIFICATION Spec
CONSTANTS
  Levels = {0, 1, 2, 3, 4, 5}
  MsgLevels = {1, 2, 3, 4, 5}
  Appenders = {2}
  Steps = 5
  Starts = {"default"}
  Show = FALSE
  Every = 1
INVARIANTS WrittenWhenEnabled OffIsOff
CHECK_DEADLOCK FALSE
