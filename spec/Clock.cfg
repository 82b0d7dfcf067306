INIT Init
NEXT Next
INVARIANTS Returns Floors Leaps Runs Calendar
CHECK_DEADLOCK FALSE
