CONSTANTS Documents = 2 Size = 2
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Honest Apart
PROPERTY Finishes
CHECK_DEADLOCK FALSE
