SPECIFICATION Spec
CONSTANTS
  H = 3
  D = 2
  MaxClock = 4
  None = 0
INVARIANTS Coherent
PROPERTIES NoLostUpdate Exclusive Monotone GetIsNewest
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
