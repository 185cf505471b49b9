------------------------------ MODULE TraceIri ------------------------------
EXTENDS Iri, Replay
RStart(e) == <<>>
RConf(st, e) == IriConf(e)
RPost(st, e) == <<>>
RWant(st, e) == IriWant(e)
=============================================================================
