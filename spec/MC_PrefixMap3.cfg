INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
CONSTANTS
  Prefixes <- OwnPrefixes
  Iris <- OwnIris
  NamesUsed <- MCNames
  Slots = {0}
  Voc = {"rdf", "owl"}
INVARIANTS AlwaysOneToOne Inverse Found
CHECK_DEADLOCK FALSE
