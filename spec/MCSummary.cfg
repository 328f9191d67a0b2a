SPECIFICATION Spec
CONSTANT MaxC = 4
INVARIANT Total
PROPERTIES Improves Counts
CONSTRAINT Collect
POSTCONDITION Post
CHECK_DEADLOCK FALSE
