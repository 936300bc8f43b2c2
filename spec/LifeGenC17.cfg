INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 K = 8
 NObj = 2
 Classes = {"H","G","S","A","P"}
 Unfit = 6
 Weights <- WC17
