SPECIFICATION Spec
CONSTANTS
 MaxConf = 3
 MaxRun = 2
 Losses = {400000}
INVARIANTS FidInside OneAtATime Ladder NeverWaits Design
PROPERTIES Thaws
CHECK_DEADLOCK FALSE
