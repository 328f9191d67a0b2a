SPECIFICATION Spec
CONSTANTS
 Eta = 3
 Fids <- Fids3
 Cost = 10
 MaxIds = 3
 Workers = 2
 Losses = {1, 2}
INVARIANTS Decided HasBest Accepts
PROPERTIES Stays Grows
POSTCONDITION Post
CHECK_DEADLOCK FALSE
