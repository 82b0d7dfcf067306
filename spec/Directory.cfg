INIT Init
NEXT Next
INVARIANTS Single Remembers Compared Points
CHECK_DEADLOCK FALSE
