CONSTANTS K = 4
 NCalc = 2
 NData = 1
 NModel = 2
 NObj = 2
 Mis = 6
 Kinds = {"calc","fit"}
 Meths = {"H","G","I","A"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
