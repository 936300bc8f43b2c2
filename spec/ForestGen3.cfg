CONSTANTS F = 3
 MaxSplits = 12
 MaxTrees = 4
 Fits = 2
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
