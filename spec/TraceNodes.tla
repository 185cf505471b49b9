----------------------------- MODULE TraceNodes -----------------------------
EXTENDS Replay
LOCAL N == INSTANCE Nodes
LOCAL S == INSTANCE Simplify
IsReify(e) == e.op \in {"node.reify", "node.reify_list"}
RStart(e) == <<>>
RConf(st, e) ==
  CASE e.op = "node.reify" -> S!ReifyConf(<<"s", e.s>>, e.res[1], e.res[2])
    [] e.op = "node.reify_list" -> S!ReifyConf(e.c, e.res[1], e.res[2])
    [] OTHER -> N!NodesConf(e)
RPost(st, e) == <<>>
RWant(st, e) == IF IsReify(e) THEN "see ReifyConf" ELSE N!NodesWant(e)
=============================================================================
