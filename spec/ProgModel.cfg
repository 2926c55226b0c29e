SPECIFICATION Spec
CONSTANTS
  Cases = {"mr", "mr16", "ident", "stub", "full", "scal", "update", "dpi", "dpiclear", "dpidet", "dpicmd", "dpiobj", "file", "fsync", "begin", "open", "large", "sess", "unsess", "close"}
  Devs = 1
  Show = FALSE
INVARIANTS FailureIsReported Bounded RefusalIsReported DpiOrder IdentFaithful UpdateAtomic SyncAtomic UploadBegun OneOutcome
CHECK_DEADLOCK FALSE
