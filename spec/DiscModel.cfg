SPECIFICATION Spec
CONSTANTS
  Answers = 2
  Odd = 1
  Show = FALSE
  Every = 1
INVARIANTS ListsAll InventsNone EndsInTime
CHECK_DEADLOCK FALSE
