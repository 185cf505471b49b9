CONSTANTS Pairs = FALSE
          Length = 2
INIT Init
NEXT Next
ACTION_CONSTRAINT Emitted
INVARIANTS Composes Padded
CHECK_DEADLOCK FALSE
