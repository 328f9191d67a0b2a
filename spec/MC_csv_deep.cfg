SPECIFICATION Spec
CONSTANTS
  InLock = TRUE
  W = 3
  Max = 1
  Deaths = 1
INVARIANTS Final Own
PROPERTIES Forward
CHECK_DEADLOCK FALSE
