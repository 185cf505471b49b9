INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
CONSTANTS
  Alphabet = {97, 47, 63, 35, 58, 46}
  N = 2
INVARIANTS Whole Absolute Same Sound
CHECK_DEADLOCK FALSE
