SPECIFICATION Spec
CONSTANTS
  P <- P1
  MaxConf = 6
  MaxRun = 2
  Losses = {1, 2, 1000000}
INVARIANTS Live Sane Sync Async
CHECK_DEADLOCK FALSE
