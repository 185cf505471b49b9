INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT Emitted
CONSTANTS
  Sts <- MCTwo
  GraphNames <- MCNone
  Maps <- MCNoMaps
  Slots = {0, 1}
  Full = FALSE
INVARIANTS UniqueOnce Positive Agree
CHECK_DEADLOCK FALSE
