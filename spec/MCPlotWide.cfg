SPECIFICATION Spec
CONSTANTS
 NF = 5
 M = 1
 LMax = 11
INVARIANTS EdgesSafe ZenSafe ZenLive
CHECK_DEADLOCK FALSE
