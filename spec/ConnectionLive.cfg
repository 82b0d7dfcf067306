SPECIFICATION Spec
INVARIANTS Consistent Conserved Settled Isolated Prompt Ordered
PROPERTY Arrives
CHECK_DEADLOCK FALSE
