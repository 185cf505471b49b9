CONSTANTS Most = 2
          Edges = 3
          Loops = 9
          Links = 4
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT Exact
CHECK_DEADLOCK FALSE
