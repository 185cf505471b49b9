INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
CONSTANTS
  Alphabet = {97, 58, 46, 45, 95, 48, 32, 183, 768, 233}
  N = 5
INVARIANTS Disjoint LocalParts Composed SeparatorOnce
CHECK_DEADLOCK FALSE
