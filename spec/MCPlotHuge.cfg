SPECIFICATION Spec
CONSTANTS
 NF = 4
 M = 3
 LMax = 7
INVARIANTS EdgesSafe ZenSafe ZenLive
CHECK_DEADLOCK FALSE
