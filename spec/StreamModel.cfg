SPECIFICATION Spec
CONSTANTS
  Cuts = 1
  Breaks = 1
  Waits0 = {0}
  Sends = TRUE
  Show = FALSE
  Every = 1
INVARIANTS CutsDoNotMatter NothingMadeUp
CHECK_DEADLOCK FALSE
