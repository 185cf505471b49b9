INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Distinct Separate
CHECK_DEADLOCK FALSE
