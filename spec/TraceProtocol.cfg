SPECIFICATION TraceSpec
CONSTANTS
  Recheck = TRUE
  SerialSample = TRUE
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
