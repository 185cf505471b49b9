INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT Emitted
CONSTANTS
  Sts <- MCSts
  GraphNames <- MCNames
  Maps <- MCMaps
  Slots = {0}
  Full = TRUE
INVARIANTS UniqueOnce Positive Agree
CHECK_DEADLOCK FALSE
