CONSTANTS F = 4
 MaxSplits = 10
 MaxTrees = 4
 Calls = 3
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
