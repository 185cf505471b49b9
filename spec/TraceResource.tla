--------------------------- MODULE TraceResource ----------------------------
EXTENDS Resource, Replay
RStart(e) == <<>>
RConf(st, e) == ResourceConf(e)
RPost(st, e) == <<>>
RWant(st, e) == ResourceWant(e)
=============================================================================
