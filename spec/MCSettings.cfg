SPECIFICATION Spec
INVARIANTS CallWins FileCounts Limits Errors
CHECK_DEADLOCK FALSE
