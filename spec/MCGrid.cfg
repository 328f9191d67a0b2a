SPECIFICATION Spec
INVARIANTS Once Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
