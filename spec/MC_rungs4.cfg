SPECIFICATION Spec
CONSTANTS
  P <- P4
  MaxConf = 4
  MaxRun = 2
  Losses = {1, 2}
INVARIANTS Live Sane Sync Async
CHECK_DEADLOCK FALSE
