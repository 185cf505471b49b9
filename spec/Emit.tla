-------------------------------- MODULE Emit --------------------------------
(* Prints what a model explores, one JSON array per line of the file EDGES.  *)
EXTENDS TLC, CSV, Json, IOUtils
EmitEdge(s, o, t) == CSVWrite("%1$s", <<ToJson(<<s, o, t>>)>>, IOEnv.EDGES)
EmitOp(o) == CSVWrite("%1$s", <<ToJson(<<o>>)>>, IOEnv.EDGES)
=============================================================================
