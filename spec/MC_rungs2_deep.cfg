SPECIFICATION Spec
CONSTANTS
  P <- P2
  MaxConf = 8
  MaxRun = 2
  Losses = {1, 2}
INVARIANTS Live Sane Sync Async
CHECK_DEADLOCK FALSE
