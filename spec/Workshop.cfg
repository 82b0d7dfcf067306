INIT Init
NEXT Next
INVARIANTS Returns Rightly
CHECK_DEADLOCK FALSE
