CONSTANTS K = 1
 NCalc = 0
 NData = 1
 NModel = 1
 NObj = 1
 Mis = 6
 Kinds = {"fit"}
 Meths = {"H","G","I","A"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
