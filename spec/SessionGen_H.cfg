CONSTANTS K = 4
 NCalc = 1
 NData = 1
 NModel = 1
 NObj = 2
 Mis = 6
 Kinds = {"calc","op","fit"}
 Meths = {"H"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
