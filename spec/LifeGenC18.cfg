INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 K = 12
 NObj = 3
 Classes = {"H","G","S","C","B","A","I","P"}
 Unfit = 8
 Weights <- WC18
