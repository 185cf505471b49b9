INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Inverse NoLess
CHECK_DEADLOCK FALSE
