SPECIFICATION Spec
CONSTANTS
  P <- P4
  MaxConf = 5
  MaxRun = 2
  Losses = {1, 2}
INVARIANTS Live Sane Sync Async
CHECK_DEADLOCK FALSE
