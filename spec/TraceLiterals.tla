--------------------------- MODULE TraceLiterals ----------------------------
EXTENDS Literals, Replay
RStart(e) == <<>>
RConf(st, e) == LiteralConf(e)
RPost(st, e) == <<>>
RWant(st, e) == LiteralWant(e)
=============================================================================
