SPECIFICATION Spec
CONSTANTS
  Kinds = {"epath", "epathx", "cpf", "cpfx", "enc", "encx", "factory", "mrx", "fox", "ncp"}
  Ids = {0, 1, 255, 256, 65535}
  Bad = {0, 1, 32, 33, 36, 37, 48, 49, 127, 128, 255}
  Show = FALSE
  Every = 1
INVARIANTS AllOk
CHECK_DEADLOCK FALSE
