SPECIFICATION Spec
CONSTANTS
  Parts = {"seed", "err", "opt"}
  W = 3
  Ids = {1, 2}
INVARIANTS Agree Justified Complete FirstIn
PROPERTIES Stable Terminates
