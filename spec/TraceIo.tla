------------------------------ MODULE TraceIo -------------------------------
EXTENDS Replay
LOCAL I == INSTANCE Io
RStart(e) == <<>>
RConf(st, e) == I!IoConf(e)
RPost(st, e) == <<>>
RWant(st, e) == I!IoWant(e)
=============================================================================
