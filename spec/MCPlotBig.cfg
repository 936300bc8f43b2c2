SPECIFICATION Spec
CONSTANTS
 NF = 4
 M = 2
 LMax = 7
INVARIANTS EdgesSafe ZenSafe ZenLive
CHECK_DEADLOCK FALSE
