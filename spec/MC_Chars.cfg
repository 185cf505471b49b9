CONSTANT More = FALSE
INIT Init
NEXT Next
ACTION_CONSTRAINT Emitted
INVARIANT Wider
CHECK_DEADLOCK FALSE
