INIT Init
NEXT Next
INVARIANTS Consistent Conserved Settled Isolated Prompt Ordered Answered
CHECK_DEADLOCK FALSE
