INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 K = 7
 NObj = 2
 Classes = {"H","G","S","C","B","I","P"}
 Unfit = 6
 Weights <- WC15
