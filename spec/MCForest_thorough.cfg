CONSTANTS F = 3
 MaxSplits = 6
INIT Init
NEXT Next
INVARIANTS Agree Interval Sane
CHECK_DEADLOCK FALSE
