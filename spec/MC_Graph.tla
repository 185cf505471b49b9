------------------------------ MODULE MC_Graph ------------------------------
(* Every graph over a few statements, names and mappings, at most two of     *)
(* each statement, and every operation on each; and pairs of smaller ones.   *)
EXTENDS Simplify, Emit
CONSTANTS Sts, GraphNames, Maps, Slots, Full
VARIABLES s, o

\* The first behaviours start with a graph of either kind.
Init == s = [Fresh EXCEPT !.g = <<[Plain EXCEPT !.map = {}], [Plain EXCEPT !.map = {}]>>] /\ o = [op |-> "reset"]
Seqs == {<<x>> : x \in Sts} \cup {<<>>} \cup {<<x, y>> : x, y \in Sts}
Subs == {x[1] : x \in Sts}
Preds == {x[2] : x \in Sts}
Objs == {x[3] : x \in Sts}
Opts(S) == {None} \cup {Some(x) : x \in S}
Kinds == {<<u, n, <<>>, m>> : u \in BOOLEAN, n \in {None}, m \in Maps}
Base == <<104,116,116,112,58,47,47,98,47>>
KnownIris == {"http://a/", "http://b/", "http://p/", "http://q/", "http://m/", "http://g/", "http://t/"}
Mutate(g) ==
  {[op |-> "graph.new", g |-> g, v |-> v] : v \in Kinds}
  \cup {[op |-> k, g |-> g, s |-> x] : k \in {"graph.insert", "graph.remove"}, x \in Sts}
  \cup {[op |-> "graph.remove_all_for", g |-> g, n |-> n] : n \in Subs}
  \cup {[op |-> k, g |-> g, v |-> v] : k \in {"graph.extend", "graph.with"}, v \in Seqs}
  \cup {[op |-> "graph.from", g |-> g, v |-> <<x>>, via |-> via] : via \in {"vec", "iter", "one"}, x \in Sts}
  \cup {[op |-> k, g |-> g] : k \in {"graph.dedup", "graph.clear"}}
  \cup (IF Slots = {0} THEN {} ELSE {[op |-> k, g |-> g] : k \in {"graph.merge", "graph.clone"}})
Names(g) ==
  {[op |-> "graph.set_name", g |-> g, n |-> n] : n \in GraphNames}
  \cup {[op |-> "graph.unset_name", g |-> g]}
  \cup {[op |-> k, g |-> g, v |-> m] : k \in {"graph.set_mappings", "graph.with_mappings"}, m \in Maps}
Query(g) ==
  {[op |-> k, g |-> g] : k \in {"graph.size", "graph.sets", "graph.simplify"}}
  \cup {[op |-> "graph.has", g |-> g, s |-> <<a, p, b>>] : a \in Subs, p \in Preds, b \in Objs}
  \cup {[op |-> "graph.match", g |-> g, s |-> a, p |-> p, o |-> b] : a \in Opts(Subs), p \in Opts(Preds), b \in Opts(Objs)}
  \cup {[op |-> "graph.for", g |-> g, n |-> n, p |-> p] : n \in Subs, p \in Preds}
  \cup {[op |-> "graph.skolemize", g |-> g, base |-> Base, known |-> KnownIris]}
Ops(g) == Mutate(g) \cup (IF GraphNames # {} THEN Names(g) ELSE {}) \cup (IF Full THEN Query(g) ELSE {})
Next == \E g \in Slots : \E x \in Ops(g) : o' = x /\ s' = StoreAfter(s, x)
View == s
Bounded == \A i \in 1..2 : \A x \in DOMAIN s.g[i].sts : s.g[i].sts[x] <= 2

Shown(g) == <<g.unique, g.name, {<<x, g.sts[x]>> : x \in DOMAIN g.sts}, g.map>>
Emitted == EmitEdge(<<Shown(s.g[1]), Shown(s.g[2])>>, o', <<Shown(s'.g[1]), Shown(s'.g[2])>>)

UniqueOnce == \A i \in 1..2 : s.g[i].unique => \A x \in DOMAIN s.g[i].sts : s.g[i].sts[x] = 1
Positive == \A i \in 1..2 : \A x \in DOMAIN s.g[i].sts : s.g[i].sts[x] > 0
\* Queries agree with each other.
Agree ==
  \A i \in 1..2 : LET g == s.g[i]  any == [s |-> None, p |-> None, o |-> None] IN
    /\ Matching(g, any) = DOMAIN g.sts
    /\ \A n \in Subs : (n \in Subjects(g)) = (Matching(g, [any EXCEPT !.s = Some(n)]) # {})
    /\ (Size(g.sts) = 0) = (DOMAIN g.sts = {})
    /\ GraphWant(g, [op |-> "graph.dedup"]) = NoBag \/ ~g.unique

A == <<"i", "http://a/">>
P == "http://p/"
Q == "http://q/"
S1 == <<A, P, <<"i", "http://b/">>>>
S2 == <<A, Q, <<"l", "x", "", "">>>>
S3 == <<<<"b", "n">>, P, A>>
S4 == <<<<"s", S1>>, P, <<"c", <<A, <<"b", "n">>>>>>>>
MCSts == {S2, S3, S4}
MCTwo == {S1, S3}
MCNames == {<<"b", "n">>, <<"i", "http://g/">>}
MCNone == {}
MCMaps == {<<>>, <<<<"m:", "http://m/">>, <<":", "http://p/">>>>}
MCNoMaps == {<<>>}
=============================================================================
