----------------------------- MODULE MC_DataSet -----------------------------
(* Every data set over three names, with graphs of a few statements.         *)
EXTENDS Graph, Emit
VARIABLES s, o
Init == s = Fresh /\ o = [op |-> "reset"]
A == <<"i", "http://a/">>
S1 == <<A, "http://p/", A>>
S2 == <<<<"b", "n">>, "http://p/", A>>
DataNames == {None, <<"b", "n">>, <<"i", "http://g/">>}
Graphs == {<<u, n, v, <<>>>> : u \in {TRUE}, n \in DataNames, v \in {<<>>, <<S1>>}}
          \cup {<<FALSE, n, v, <<>>>> : n \in DataNames, v \in {<<S1, S1>>}}
Pairs == {<<x, y>> : x, y \in {<<TRUE, n, v, <<>>>> : n \in DataNames, v \in {<<>>, <<S1>>}}}
Ops ==
  {[op |-> "data.insert", v |-> v] : v \in Graphs}
  \cup {[op |-> "data.from", via |-> via, v |-> v] : via \in {"vec", "iter"}, v \in Pairs \cup {<<>>}}
  \cup {[op |-> "data.from", via |-> "map", v |-> <<v>>] : v \in Graphs}
  \cup {[op |-> "data.from", via |-> "one", v |-> <<v>>] : v \in Graphs}
  \cup {[op |-> "data.extend", v |-> v] : v \in Pairs}
  \cup {[op |-> k, n |-> n] : k \in {"data.remove", "data.look"}, n \in DataNames}
  \cup {[op |-> "data.edit", n |-> n, s |-> S1] : n \in DataNames}
  \cup {[op |-> "data.clear"]}
Next == \E x \in Ops : o' = x /\ s' = StoreAfter(s, x)
View == s.d
Bounded == \A x \in s.d : Size(x[2].sts) <= 2
Shown(d) == {<<x[1], x[2].unique, {<<y, x[2].sts[y]>> : y \in DOMAIN x[2].sts}>> : x \in d}
Emitted == EmitEdge(Shown(s.d), o', Shown(s'.d))
Keyed == \A x, y \in s.d : x[1] = y[1] => x = y
Named == \A x \in s.d : x[1] = x[2].name
=============================================================================
