SPECIFICATION Spec
INVARIANTS Proper OneFidelity FormFree
CHECK_DEADLOCK FALSE
