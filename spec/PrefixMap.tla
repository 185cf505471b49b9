----------------------------- MODULE PrefixMap ------------------------------
(***************************************************************************)
(* A prefix map is a set of <<prefix, IRI>> pairs that is a one-to-one     *)
(* partial function in both directions at all times.  The state has two    *)
(* maps, so that copies of a map can be seen to be independent.            *)
(***************************************************************************)
EXTENDS Iri, Vocabularies, FiniteSets

Lookup(m, p) == IF \E x \in m : x[1] = p THEN Some((CHOOSE x \in m : x[1] = p)[2]) ELSE None
Reverse(m, i) == IF \E x \in m : x[2] = i THEN Some((CHOOSE x \in m : x[2] = i)[1]) ELSE None
\* The last writer wins, on both sides.
Insert(m, p, i) == {x \in m : x[1] # p /\ x[2] # i} \cup {<<p, i>>}
Remove(m, p) == {x \in m : x[1] # p}
OneToOne(m) == \A x, y \in m : (x[1] = y[1] \/ x[2] = y[2]) => x = y

Expand(m, p, n) == LET r == Lookup(m, p) IN IF r = None THEN None ELSE MakeName(r[2], n)
Compress(m, i) ==
  LET r == Split(i) IN
  IF r = None THEN None
  ELSE LET p == Reverse(m, r[2][1]) IN IF p = None THEN None ELSE Some(<<p[2], r[2][2]>>)

OfVocabularies(V) == {Vocabulary(v) : v \in V}
DefaultMap == OfVocabularies({"rdf", "rdfs", "xsd", "owl"})
CommonMap == DefaultMap \cup OfVocabularies({"dcterms", "skos", "void"})

\* The map that operation o leaves where it found m; maps is the state.
MapAfter(maps, m, o) ==
  CASE o.op = "map.empty" -> {}
    [] o.op = "map.default" -> DefaultMap
    [] o.op = "map.common" -> CommonMap
    [] o.op \in {"map.insert", "map.with"} -> Insert(m, o.p, o.i)
    [] o.op \in {"map.set_default", "map.with_default"} -> Insert(m, Default, o.i)
    [] o.op = "map.remove" -> Remove(m, o.p)
    [] o.op = "map.remove_default" -> Remove(m, Default)
    [] o.op = "map.clear" -> {}
    [] o.op \in {"map.insert_vocab", "map.with_vocab"} ->
         LET v == Vocabulary(o.v) IN Insert(m, v[1], v[2])
    [] OTHER -> m
Target(o) == IF o.op = "map.clone" THEN o.to + 1 ELSE o.m + 1
MapsAfter(maps, o) == [maps EXCEPT ![Target(o)] = MapAfter(maps, maps[o.m + 1], o)]
Empty == << {}, {} >>

(***************************************************************************)
(* Results of the operations on the real code, see harness/iri.            *)
(***************************************************************************)
Pfx == <<80,114,101,102,105,120,101,115,40,10>>
Line(x) == <<32,32,32,32>> \o x[1] \o <<32,32>> \o Bracket(x[2]) \o <<32,44,10>>

\* What a trip through both directions gives: for every prefix that is bound to a namespace, the
\* name that was expanded; for every name there is, the IRI that was compressed.
MapWant(maps, o) ==
  LET m == maps[o.m + 1] IN
  CASE o.op = "map.get_namespace" -> Lookup(m, o.p)
    [] o.op = "map.get_prefix" -> Reverse(m, o.i)
    [] o.op = "map.expand" -> Expand(m, o.p, o.n)
    [] o.op = "map.compress" -> Compress(m, o.i)
    [] o.op = "map.compress_ref" ->
         LET r == Compress(m, o.i) IN IF r = None THEN <<"iri", o.i>> ELSE <<"local", r[2]>>
    [] o.op = "map.views" ->
         << Cardinality(m), m = {}, Lookup(m, Default), {x[1] : x \in m}, {x[2] : x \in m},
            "Prefixes( a line per mapping )" >>
    [] o.op = "map.eq" -> << m = maps[o.to + 1] >>
    [] o.op = "map.trip" ->
         LET r == Lookup(m, o.p) IN
         IF r = None \/ (r # None /\ MakeName(r[2], o.n) = None) THEN <<None, None>>
         ELSE <<Expand(m, o.p, o.n), Some(<<o.p, o.n>>)>>
    [] OTHER -> << "unit" >>

\* The printed map: a header, a line for each mapping in any order, a footer.
PrintedMap(m, t) ==
  \E f \in [1..Cardinality(m) -> m] :
    /\ {f[i] : i \in DOMAIN f} = m
    /\ t = Pfx \o Concat([i \in DOMAIN f |-> Line(f[i])]) \o <<41, 10>>
\* The lines of a longer map are only counted.
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(Line(x)) + SumLen(S \ {x})
PrintedMapSize(m, t) == StartsWith(t, Pfx) /\ Len(t) = Len(Pfx) + 2 + SumLen(m)

MapResult(maps, o) ==
  LET m == maps[o.m + 1]  w == MapWant(maps, o) IN
  CASE o.op = "map.views" ->
         LET r == o.res IN
         /\ r[1] = w[1] /\ r[2] = w[2] /\ r[3] = w[3]
         /\ Len(r[4]) = w[1] /\ Range(r[4]) = w[4]
         /\ Len(r[5]) = w[1] /\ Range(r[5]) = w[5]
         /\ IF w[1] <= 4 THEN PrintedMap(m, r[6]) ELSE PrintedMapSize(m, r[6])
    [] OTHER -> o.res = w

Observed(obs) == [i \in 1..2 |-> Range(obs[i])]
MapConf(maps, o) ==
  /\ MapResult(maps, o)
  /\ Observed(o.obs) = MapsAfter(maps, o)
  /\ \A i \in 1..2 : Len(o.obs[i]) = Cardinality(Range(o.obs[i]))
=============================================================================
