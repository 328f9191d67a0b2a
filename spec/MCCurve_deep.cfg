SPECIFICATION Spec
CONSTANTS
 MaxEv = 9
 Fault = "none"
 Losses = {1000, 3000}
INVARIANTS Faithful Careful Falls
POSTCONDITION Post
CHECK_DEADLOCK FALSE
