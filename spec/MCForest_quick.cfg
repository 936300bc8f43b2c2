CONSTANTS F = 2
 MaxSplits = 5
INIT Init
NEXT Next
INVARIANTS Agree Interval Sane
CHECK_DEADLOCK FALSE
