CONSTANTS Table <- T1
  BatchSizes = {0, 3, 4, 100}
  MaxOps = 2
  MaxFaults = 1
SPECIFICATION Spec
INVARIANTS Coherent Complete Untouched Economy NoWaste FaultSafe
PROPERTY Ends
CHECK_DEADLOCK FALSE
