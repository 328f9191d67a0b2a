SPECIFICATION Spec
CONSTANTS
  InLock = TRUE
  W = 2
  Max = 2
  Deaths = 1
INVARIANTS Final Own
PROPERTIES Forward
CHECK_DEADLOCK FALSE
