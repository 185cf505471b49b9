INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
CONSTANTS
  Prefixes <- Two
  Iris <- MCIris
  NamesUsed <- MCNames
  Slots = {0, 1}
  Voc = {}
INVARIANTS AlwaysOneToOne Inverse Found
CHECK_DEADLOCK FALSE
