CONSTANTS Pieces = 4 Buffer = 3
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Honest Useful
PROPERTY Ends
CHECK_DEADLOCK FALSE
