CONSTANTS K = 6
 NCalc = 2
 NData = 2
 NModel = 2
 NObj = 2
 Mis = 6
 Kinds = {"calc","op","fit"}
 Meths = {"H","G","I","A"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
