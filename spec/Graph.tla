------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* A graph is a bag of statements (in a graph of unique statements: a set  *)
(* of them) with an optional name and a set of prefix mappings.  A data    *)
(* set is a map from names, or the lack of one, to graphs, under the name  *)
(* that each had when it was inserted.  The state has two graphs, so that  *)
(* copies can be seen to be independent, and a data set.                   *)
(*                                                                         *)
(* Nodes are <<"b", label>>, <<"i", iri>>, <<"s", statement>>,             *)
(* <<"l", lexical form, data type or "", language or "">> and              *)
(* <<"c", sequence of nodes>>; a statement is a subject, an IRI and an     *)
(* object; statements and names are opaque here.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range(f) == {f[i] : i \in DOMAIN f}
None == <<"none">>
Some(x) == <<"some", x>>
Unit == <<"unit">>

(***************************************************************************)
(* Bags: functions to the positive numbers.                                *)
(***************************************************************************)
NoBag == [x \in {} |-> 0]
Count(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
BagOf(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Plus(b, c) == [x \in DOMAIN b \cup DOMAIN c |-> Count(b, x) + Count(c, x)]
Restrict(b, P) == [x \in DOMAIN b \cap P |-> b[x]]
RECURSIVE Sum(_, _)
Sum(b, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN b[x] + Sum(b, S \ {x})
Size(b) == Sum(b, DOMAIN b)
Once(b) == [x \in DOMAIN b |-> 1]
\* b with every statement of the sequence s in it.
Added(unique, b, s) == IF unique THEN Once(Plus(b, BagOf(s))) ELSE Plus(b, BagOf(s))

(***************************************************************************)
(* Graphs.                                                                 *)
(***************************************************************************)
\* The mappings of a list of them: one to one, the last one wins.
Bind(m, x) == {y \in m : y[1] # x[1] /\ y[2] # x[2]} \cup {x}
RECURSIVE Bindings(_, _)
Bindings(m, s) == IF s = <<>> THEN m ELSE Bindings(Bind(m, Head(s)), Tail(s))

GraphOf(v) == [unique |-> v[1], name |-> v[2], sts |-> Added(v[1], NoBag, v[3]), map |-> Bindings({}, v[4])]
\* A graph as it was observed: what it lists is what it has.
Seen(v) == [unique |-> v[1], name |-> v[2], sts |-> BagOf(v[3]), map |-> Range(v[4])]
\* The mappings of a new map, see CommonMap in spec/PrefixMap.tla.
Plain == [unique |-> FALSE, name |-> None, sts |-> NoBag,
          map |-> {<<"owl:", "http://www.w3.org/2002/07/owl#">>,
                   <<"rdf:", "http://www.w3.org/1999/02/22-rdf-syntax-ns#">>,
                   <<"rdfs:", "http://www.w3.org/2000/01/rdf-schema#">>,
                   <<"xsd:", "http://www.w3.org/2001/XMLSchema#">>}]

Subjects(g) == {x[1] : x \in DOMAIN g.sts}
Blank(n) == n[1] = "b"
With(g, v) == [g EXCEPT !.sts = Added(g.unique, @, v)]

\* The graph that operation o leaves in the slot it is for; other is the graph in the other slot.
GraphAfter(g, other, o) ==
  CASE o.op = "graph.new" -> GraphOf(o.v)
    [] o.op = "graph.from" -> With(Plain, o.v)
    [] o.op = "graph.with" -> [g EXCEPT !.sts = Added(g.unique, NoBag, o.v)]
    [] o.op = "graph.insert" -> With(g, <<o.s>>)
    [] o.op = "graph.extend" -> With(g, o.v)
    [] o.op = "graph.merge" ->
         [g EXCEPT !.sts = IF g.unique THEN Once(Plus(@, other.sts)) ELSE Plus(@, other.sts)]
    [] o.op = "graph.dedup" -> [g EXCEPT !.sts = Once(@)]
    [] o.op = "graph.remove" -> [g EXCEPT !.sts = Restrict(@, DOMAIN @ \ {o.s})]
    [] o.op = "graph.remove_all_for" -> [g EXCEPT !.sts = Restrict(@, {x \in DOMAIN @ : x[1] # o.n})]
    [] o.op = "graph.clear" -> [g EXCEPT !.sts = NoBag]
    [] o.op = "graph.set_name" -> [g EXCEPT !.name = o.n]
    [] o.op = "graph.unset_name" -> [g EXCEPT !.name = None]
    [] o.op \in {"graph.set_mappings", "graph.with_mappings"} -> [g EXCEPT !.map = Bindings({}, o.v)]
    [] OTHER -> g

Matching(g, o) ==
  {x \in DOMAIN g.sts : /\ o.s = None \/ x[1] = o.s[2]
                        /\ o.p = None \/ x[2] = o.p[2]
                        /\ o.o = None \/ x[3] = o.o[2]}
\* A sequence lists a set.
Lists(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S

GraphWant(g, o) ==
  CASE o.op = "graph.dedup" ->
         LET more == {x \in DOMAIN g.sts : g.sts[x] > 1} IN [x \in more |-> g.sts[x] - 1]
    [] o.op = "graph.remove_all_for" -> Restrict(g.sts, {x \in DOMAIN g.sts : x[1] = o.n})
    [] o.op = "graph.size" -> <<Size(g.sts), Size(g.sts) = 0, g.name # None, TRUE>>
    [] o.op = "graph.has" -> <<o.s \in DOMAIN g.sts, o.s \in DOMAIN g.sts, o.s[1] \in Subjects(g)>>
    [] o.op = "graph.match" -> Matching(g, o)
    [] o.op = "graph.sets" ->
         << Subjects(g), {n \in Subjects(g) : ~Blank(n)}, {n \in Subjects(g) : Blank(n)},
            {x[2] : x \in DOMAIN g.sts}, {x[3] : x \in DOMAIN g.sts} >>
    [] o.op = "graph.for" ->
         << {x[2] : x \in {x \in DOMAIN g.sts : x[1] = o.n}},
            {x[3] : x \in {x \in DOMAIN g.sts : x[1] = o.n /\ x[2] = o.p}} >>
    [] OTHER -> Unit

GraphResult(g, o) ==
  LET w == GraphWant(g, o) IN
  CASE o.op \in {"graph.dedup", "graph.remove_all_for"} -> BagOf(o.res) = w
    [] o.op = "graph.match" -> Lists(o.res, w)
    [] o.op = "graph.sets" -> \A i \in 1..5 : Lists(o.res[i], w[i])
    [] o.op = "graph.for" -> \A i \in 1..2 : Lists(o.res[i], w[i])
    [] OTHER -> o.res = w

(***************************************************************************)
(* Data sets: sets of pairs of a name and a graph.                         *)
(***************************************************************************)
Put(d, g) == {x \in d : x[1] # g.name} \cup {<<g.name, g>>}
RECURSIVE PutAll(_, _)
PutAll(d, gs) == IF gs = <<>> THEN d ELSE PutAll(Put(d, GraphOf(Head(gs))), Tail(gs))
Find(d, n) == IF \E x \in d : x[1] = n THEN Some((CHOOSE x \in d : x[1] = n)[2]) ELSE None
Has(d, n) == \E x \in d : x[1] = n

DataAfter(d, o) ==
  CASE o.op = "data.from" -> PutAll({}, o.v)
    [] o.op = "data.insert" -> Put(d, GraphOf(o.v))
    [] o.op = "data.extend" -> PutAll(d, o.v)
    [] o.op = "data.remove" -> {x \in d : x[1] # o.n}
    [] o.op = "data.clear" -> {}
    [] o.op = "data.edit" -> {IF x[1] = o.n THEN <<x[1], With(x[2], <<o.s>>)>> ELSE x : x \in d}
    [] OTHER -> d

SeenOpt(r) == IF r = None THEN None ELSE Some(Seen(r[2]))
DataResult(d, o) ==
  CASE o.op = "data.edit" -> o.res = IF Has(d, o.n) THEN <<"some">> ELSE None
    [] o.op = "data.look" ->
         LET r == o.res IN
         /\ r[1] = Has(d, o.n) /\ r[2] = Has(d, None) /\ r[3] = Has(d, o.n)
         /\ SeenOpt(r[4]) = Find(d, o.n) /\ SeenOpt(r[5]) = Find(d, None) /\ SeenOpt(r[6]) = Find(d, o.n)
         /\ r[7] = Cardinality(d) /\ r[8] = (d = {})
         /\ Len(r[9]) = Cardinality(d) /\ BagOf(r[9]) = [n \in {x[2].name : x \in d} |->
                                                          Cardinality({x \in d : x[2].name = n})]
    [] OTHER -> o.res = Unit

(***************************************************************************)
(* The state and its steps.                                                *)
(***************************************************************************)
Fresh == [g |-> <<Plain, Plain>>, d |-> {}]
IsData(o) == o.op \in {"data.from", "data.insert", "data.extend", "data.remove", "data.clear", "data.edit", "data.look"}
\* Operations whose result is another graph: see spec/Simplify.tla.
Derives(o) == o.op \in {"graph.simplify", "graph.skolemize"}
StoreAfter(st, o) ==
  IF IsData(o) THEN [st EXCEPT !.d = DataAfter(@, o)]
  ELSE IF o.op = "graph.clone" THEN [st EXCEPT !.g[2 - o.g] = st.g[o.g + 1]]
  ELSE [st EXCEPT !.g[o.g + 1] = GraphAfter(@, st.g[2 - o.g], o)]
StoreResult(st, o) == IF IsData(o) THEN DataResult(st.d, o) ELSE GraphResult(st.g[o.g + 1], o)

\* What can be observed is the state; the names of a data set are those of obs.d.
StoreSeen(st, obs) ==
  /\ \A i \in 1..2 : Seen(obs.g[i]) = st.g[i]
  /\ obs.size = Cardinality(st.d)
  /\ \A i \in DOMAIN obs.d : SeenOpt(obs.d[i][2]) = Find(st.d, obs.d[i][1])
=============================================================================
