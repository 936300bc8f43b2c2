CONSTANTS K = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
