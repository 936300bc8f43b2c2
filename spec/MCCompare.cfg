SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
INVARIANTS Laws
CHECK_DEADLOCK FALSE
