INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Total Distinct
CHECK_DEADLOCK FALSE
