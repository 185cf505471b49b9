INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT Emitted
INVARIANTS Keyed Named
CHECK_DEADLOCK FALSE
