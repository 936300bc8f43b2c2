SPECIFICATION Spec
CONSTANTS
 NF = 3
 M = 4
 LMax = 5
INVARIANTS EdgesSafe ZenSafe ZenLive
CHECK_DEADLOCK FALSE
