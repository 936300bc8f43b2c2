INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 K = 6
