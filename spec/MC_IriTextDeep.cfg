INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
CONSTANTS
  Alphabet = {60, 62, 97, 58, 47, 49, 35, 63}
  N = 6
INVARIANTS OnePair Brackets Disjoint
CHECK_DEADLOCK FALSE
