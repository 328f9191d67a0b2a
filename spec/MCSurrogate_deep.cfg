SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Init0 = 2
 Fids <- Fids3
 Losses = {1000, 2000, 3000}
 Costs <- CostsD
INVARIANTS Learnable FailsInside OneAccepts Decided Enough ManyAccepts
PROPERTIES Rises Kept
POSTCONDITION Post
CHECK_DEADLOCK FALSE
