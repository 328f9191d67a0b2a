SPECIFICATION Spec
CONSTANT Len0 = 3
INVARIANT Reach
POSTCONDITION Post
CHECK_DEADLOCK FALSE
