CONSTANTS K = 7
 NCalc = 3
 NData = 3
 NModel = 2
 NObj = 2
 Mis = 1
 Kinds = {"calc","op","fit"}
 Meths = {"H","G","I","A"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
