SPECIFICATION Spec
VIEW View
CONSTANTS
  Sizes = {0, 1, 4, 5}
  TSizes = {1, 2, 4}
  Devs = 1
  Extra = FALSE
  Steps = 7
  Show = FALSE
  Every = 1
INVARIANTS OneOutcomeOnly SuccessIsComplete ErrorIsEmpty ProperSucceeds
CHECK_DEADLOCK FALSE
