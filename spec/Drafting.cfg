INIT Init
NEXT Next
INVARIANTS Coherent Carries Shown Once
PROPERTIES Separate Once1 Local Idle
CHECK_DEADLOCK FALSE
