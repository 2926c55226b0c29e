SPECIFICATION Spec
VIEW View
CONSTANTS
  Conns = {0, 1, 2, 3}
  First = {0, 1}
  Advs = {0, 9, 10, 40, 41}
  Waits = {0, 3}
  Dgs = 1
  Progs = {}
  Steps = 3
  Show = FALSE
  Every = 1
  Nth = 0
  Fams = {"watchdog", "garbage", "route", "close", "fixsize"}
CHECK_DEADLOCK FALSE
