SPECIFICATION Greedy
CONSTANTS
 MaxConf = 3
 MaxRun = 2
 Losses = {0, 400000}
PROPERTIES Reaches
CHECK_DEADLOCK FALSE
