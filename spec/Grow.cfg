INIT Init
NEXT Next
INVARIANTS Stands Ends Again
CHECK_DEADLOCK FALSE
