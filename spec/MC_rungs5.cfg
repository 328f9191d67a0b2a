SPECIFICATION Spec
CONSTANTS
  P <- P5
  MaxConf = 4
  MaxRun = 2
  Losses = {1, 2, 1000000}
INVARIANTS Live Sane Sync Async
CHECK_DEADLOCK FALSE
