CONSTANT More = FALSE
INIT Init
NEXT Next
ACTION_CONSTRAINT Emitted
INVARIANT Composes
CHECK_DEADLOCK FALSE
