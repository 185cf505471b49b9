INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
CONSTANTS
  Alphabet = {34, 92, 10, 117, 65, 133, 61}
  N = 4
  Bytes = {0, 1, 127, 255}
INVARIANTS Printable Closed Inverse Binary
CHECK_DEADLOCK FALSE
