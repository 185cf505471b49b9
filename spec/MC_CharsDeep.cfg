CONSTANT More = TRUE
INIT Init
NEXT Next
ACTION_CONSTRAINT Emitted
INVARIANT Wider
CHECK_DEADLOCK FALSE
