INIT Init
NEXT Next
INVARIANTS Mutual Discerned Turned Numbers Bodied
CHECK_DEADLOCK FALSE
