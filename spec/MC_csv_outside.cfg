SPECIFICATION Spec
CONSTANTS
  InLock = FALSE
  W = 2
  Max = 2
  Deaths = 0
INVARIANTS Final Own
PROPERTIES Forward
CHECK_DEADLOCK FALSE
