CONSTANTS F = 3
 MaxSplits = 10
 MaxTrees = 5
 Calls = 3
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
