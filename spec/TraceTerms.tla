----------------------------- MODULE TraceTerms -----------------------------
EXTENDS Replay
LOCAL T == INSTANCE Terms
RStart(e) == <<>>
RConf(st, e) == T!TermsConf(e)
RPost(st, e) == <<>>
RWant(st, e) == T!TermsWant(e)
=============================================================================
