--------------------------- MODULE TracePrefixMap ---------------------------
EXTENDS PrefixMap, Replay
RStart(e) == Empty
RConf(st, e) == MapConf(st, e)
RPost(st, e) == MapsAfter(st, e)
RWant(st, e) == <<MapWant(st, e), MapsAfter(st, e)>>
=============================================================================
