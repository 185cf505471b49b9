----------------------------- MODULE TraceGraph -----------------------------
EXTENDS Simplify, Replay
RStart(e) == Fresh
RConf(st, e) ==
  /\ IF e.op = "graph.simplify" THEN SimplifyConf(st.g[e.g + 1], e.res[2])
     ELSE IF e.op = "graph.skolemize" THEN SkolemConf(st.g[e.g + 1], e.base, e.res[2], e.res[3])
     ELSE StoreResult(st, e)
  /\ StoreSeen(StoreAfter(st, e), e.obs)
RPost(st, e) == StoreAfter(st, e)
RWant(st, e) ==
  <<IF IsData(e) THEN "DataResult" ELSE IF Derives(e) THEN "see Simplify.tla" ELSE GraphWant(st.g[e.g + 1], e), StoreAfter(st, e)>>
=============================================================================
