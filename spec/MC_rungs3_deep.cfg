SPECIFICATION Spec
CONSTANTS
  P <- P3
  MaxConf = 5
  MaxRun = 3
  Losses = {1, 2, 1000000}
INVARIANTS Live Sane Sync Async
CHECK_DEADLOCK FALSE
