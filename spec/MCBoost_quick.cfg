CONSTANTS F = 2
 MaxSplits = 4
 Gains = {1, 2, 3}
INIT BInit
NEXT BNext
INVARIANTS PassOK
CHECK_DEADLOCK FALSE
