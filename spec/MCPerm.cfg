CONSTANTS N = 3
 F = 3
 R = 2
SPECIFICATION Spec
INVARIANTS Exact Count
PROPERTY Ends
CHECK_DEADLOCK FALSE
