SPECIFICATION Spec
CONSTANTS
  Recheck = TRUE
  SerialSample = TRUE
  W = 2
  MaxTrials = 3
  MaxCrashes = 1
  MaxTotal = 2
  InProg = TRUE
  MaxW <- NoLimit
  MaxCost <- NoLimit
  OnErr = "ignore"
  Fails = TRUE
INVARIANTS AtMostOnce Owned OneOwner SerialSampling Reported LedgerExact LedgerBound ErrLogExact ErrLogSound TotalBound TotalBoundC OneWorkerExact TotalReached PerWorker CostStop NoErrGoesOn NoGiveUp
PROPERTIES Immutable
