CONSTANTS F = 4
 MaxSplits = 12
 MaxTrees = 3
 Fits = 2
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
