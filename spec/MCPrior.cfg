SPECIFICATION Spec
CONSTANTS
 Eta = 2
 Fids <- Fids2
 Cost = 4
 MaxIds = 3
 Workers = 2
 Losses = {1, 2}
INVARIANTS Decided HasBest Accepts
PROPERTIES Stays Grows
POSTCONDITION Post
CHECK_DEADLOCK FALSE
