SPECIFICATION Spec
CONSTANTS
 Ns = {2, 3, 4, 5, 7, 10, 13}
 M = 12
 Long = 3
INVARIANTS Inside Ordered
PROPERTIES Ends Stays
POSTCONDITION Post
CHECK_DEADLOCK FALSE
