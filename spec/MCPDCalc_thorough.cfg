CONSTANTS Table <- T2
  BatchSizes = {0, 3, 5, 6, 100}
  MaxOps = 3
  MaxFaults = 1
SPECIFICATION Spec
INVARIANTS Coherent Complete Untouched Economy NoWaste FaultSafe
CHECK_DEADLOCK FALSE
