SPECIFICATION Spec
CONSTANTS
  Runs = {1, 2}
  MaxRuns = 3
  MaxEv = 4
INVARIANTS OneAtATime Inside Lineage OwnMark
CONSTRAINT Collect
POSTCONDITION Post
CHECK_DEADLOCK FALSE
