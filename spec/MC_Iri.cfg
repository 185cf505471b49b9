INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emitted
CONSTANTS
  Bases <- MCBases
  Opaque <- MCOpaque
  Fragments <- MCFragments
  Paths <- MCPaths
  OpaquePaths <- MCOpaquePaths
  NamesUsed <- MCNames
INVARIANTS Isolation MadeSplits NamespacesMake SplitMakes
CHECK_DEADLOCK FALSE
