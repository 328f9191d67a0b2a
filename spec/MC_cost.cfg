SPECIFICATION Spec
CONSTANTS
  Recheck = TRUE
  SerialSample = TRUE
  W = 2
  MaxTrials = 3
  MaxCrashes = 0
  MaxTotal <- NoLimit
  InProg = TRUE
  MaxW <- NoLimit
  MaxCost = 2
  OnErr = "ignore"
  Fails = FALSE
INVARIANTS AtMostOnce Owned OneOwner SerialSampling Reported LedgerExact LedgerBound ErrLogExact ErrLogSound TotalBound TotalBoundC OneWorkerExact TotalReached PerWorker CostStop NoErrGoesOn NoGiveUp
PROPERTIES Immutable
