SPECIFICATION Spec
CONSTANT Len0 = 6
INVARIANTS Consistent
PROPERTY Durable
CONSTRAINT Collect
POSTCONDITION Post
CHECK_DEADLOCK FALSE
