INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
CONSTANTS
  Prefixes <- MCPrefixes
  Iris <- MCIris
  NamesUsed <- MCNames
  Slots = {0}
  Voc = {"rdf"}
INVARIANTS AlwaysOneToOne Inverse Found
CHECK_DEADLOCK FALSE
