CONSTANTS Pairs = TRUE
          Length = 3
INIT Init
NEXT Next
ACTION_CONSTRAINT Emitted
INVARIANTS Composes Padded
CHECK_DEADLOCK FALSE
