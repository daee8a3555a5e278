CONSTANTS N = 20
 Full = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
