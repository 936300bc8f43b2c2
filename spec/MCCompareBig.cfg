SPECIFICATION Spec
CONSTANTS
 N = 4
 M = 3
INVARIANTS Laws
CHECK_DEADLOCK FALSE
