SPECIFICATION TraceSpec
CONSTANTS Parts = {"seed", "err", "opt"}
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
