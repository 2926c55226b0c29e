SPECIFICATION Spec
CONSTANTS
  Handles = {"own", "other", "zero", "low", "high", "msb", "first"}
  Statuses = {"ok", "1", "100", "byte1", "byte2", "byte3"}
  Sends = {"mr", "raw"}
  Steps = 1
  Show = FALSE
  Every = 1
INVARIANTS Account
CHECK_DEADLOCK FALSE
