SPECIFICATION TraceSpec
CONSTANT None = 0
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
