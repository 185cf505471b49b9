CONSTANTS Pieces = 2 Buffer = 1
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Honest Useful
PROPERTY Ends
CHECK_DEADLOCK FALSE
