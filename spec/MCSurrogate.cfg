SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Init0 = 2
 Fids <- Fids3
 Losses = {1000, 3000}
 Costs <- CostsC
INVARIANTS Learnable FailsInside OneAccepts Decided Enough ManyAccepts
PROPERTIES Rises Kept
POSTCONDITION Post
CHECK_DEADLOCK FALSE
