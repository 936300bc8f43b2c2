INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 K = 12
 NObj = 2
 Classes = {"H","G","S","C","B"}
 Unfit = 3
 Weights <- WC16
