CONSTANTS K = 6
 NCalc = 1
 NData = 1
 NModel = 1
 NObj = 1
 Mis = 6
 Kinds = {"calc","op","fault"}
 Meths = {"H","G","I","A"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
