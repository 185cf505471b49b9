CONSTANTS Most = 2
          Edges = 4
          Loops = 9
          Links = 6
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT Exact
CHECK_DEADLOCK FALSE
