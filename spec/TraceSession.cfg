SPECIFICATION TraceSpec
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
