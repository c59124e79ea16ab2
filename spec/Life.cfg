INIT Init
NEXT Next
INVARIANTS Sound
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
