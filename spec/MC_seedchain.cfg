SPECIFICATION Spec
CONSTANTS
  W = 3
  Max = 5
  Deaths = 2
  Tear = TRUE
INVARIANTS Undisturbed Bounded Consistent
CHECK_DEADLOCK FALSE
