SPECIFICATION Spec
CONSTANTS
 Ns = {2, 3, 4, 7}
 M = 6
 Long = 2
INVARIANTS Inside Ordered
PROPERTIES Ends Stays
POSTCONDITION Post
CHECK_DEADLOCK FALSE
