SPECIFICATION Spec
CONSTANT MaxC = 4
INVARIANTS Chain BestIsIncumbent Divides
PROPERTY ErrorsStay
CHECK_DEADLOCK FALSE
