----------------------------- MODULE TraceNames -----------------------------
EXTENDS Names, Replay
RStart(e) == <<>>
RConf(st, e) == NamesConf(e)
RPost(st, e) == <<>>
RWant(st, e) == IF e.op = "name.sweep" THEN "see Accepts" ELSE NamesWant(e)
=============================================================================
