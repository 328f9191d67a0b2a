SPECIFICATION TraceSpec
CONSTANT InLock = TRUE
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
