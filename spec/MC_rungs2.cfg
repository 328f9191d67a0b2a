SPECIFICATION Spec
CONSTANTS
  P <- P2
  MaxConf = 7
  MaxRun = 2
  Losses = {1}
INVARIANTS Live Sane Sync Async
CHECK_DEADLOCK FALSE
