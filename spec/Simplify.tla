------------------------------ MODULE Simplify ------------------------------
(***************************************************************************)
(* Simplifying a graph replaces every nested statement by a blank node     *)
(* that describes it (rdf:type rdf:Statement, rdf:subject, rdf:predicate   *)
(* and rdf:object) and every collection by the first blank node of an      *)
(* rdf:List.  Which blank nodes those are is left open: a simplified graph *)
(* is right if decoding the descriptions gives the statements back.        *)
(* Skolemizing replaces every blank node by an IRI of its own.             *)
(***************************************************************************)
EXTENDS Graph, TLC
LOCAL I == INSTANCE Iri

RdfNs == "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
RdfType == "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
RdfStatement == "http://www.w3.org/1999/02/22-rdf-syntax-ns#Statement"
RdfSubject == "http://www.w3.org/1999/02/22-rdf-syntax-ns#subject"
RdfPredicate == "http://www.w3.org/1999/02/22-rdf-syntax-ns#predicate"
RdfObject == "http://www.w3.org/1999/02/22-rdf-syntax-ns#object"
RdfList == "http://www.w3.org/1999/02/22-rdf-syntax-ns#List"
RdfFirst == "http://www.w3.org/1999/02/22-rdf-syntax-ns#first"
RdfRest == "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest"
RdfNil == "http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"
Nil == <<"i", RdfNil>>
OfStatement == {RdfType, RdfSubject, RdfPredicate, RdfObject}
OfList == {RdfType, RdfFirst, RdfRest}
Describing == OfStatement \cup OfList

(***************************************************************************)
(* The nodes of a statement.                                               *)
(***************************************************************************)
RECURSIVE Blanks(_)
Blanks(n) ==
  CASE n[1] = "b" -> {n[2]}
    [] n[1] = "s" -> Blanks(n[2][1]) \cup Blanks(n[2][3])
    [] n[1] = "c" -> UNION {Blanks(n[2][i]) : i \in DOMAIN n[2]}
    [] OTHER -> {}
BlanksOf(x) == Blanks(x[1]) \cup Blanks(x[3])
BlanksIn(g) == UNION {BlanksOf(x) : x \in DOMAIN g.sts} \cup IF g.name[1] = "b" THEN {g.name[2]} ELSE {}

\* The empty collection is rdf:nil.
RECURSIVE Norm(_)
Norm(n) ==
  CASE n[1] = "s" -> <<"s", <<Norm(n[2][1]), n[2][2], Norm(n[2][3])>>>>
    [] n[1] = "c" -> IF n[2] = <<>> THEN Nil ELSE <<"c", [i \in DOMAIN n[2] |-> Norm(n[2][i])]>>
    [] OTHER -> n
NormOf(x) == <<Norm(x[1]), x[2], Norm(x[3])>>
RECURSIVE SumBy(_, _, _, _)
SumBy(b, S, F(_), y) ==
  IF S = {} THEN 0
  ELSE LET x == CHOOSE x \in S : TRUE IN (IF F(x) = y THEN b[x] ELSE 0) + SumBy(b, S \ {x}, F, y)
\* The image of a bag.
Image(F(_), b) == [y \in {F(x) : x \in DOMAIN b} |-> SumBy(b, DOMAIN b, F, y)]

Simple(x) == x[1][1] \in {"b", "i"} /\ x[3][1] \in {"b", "i", "l"}

(***************************************************************************)
(* Decoding.  out is a sequence of statements, known the blank nodes that  *)
(* are not descriptions.                                                   *)
(***************************************************************************)
Made(out, known) ==
  {n \in {out[i][1] : i \in DOMAIN out} \cup {out[i][3] : i \in DOMAIN out} : n[1] = "b" /\ n[2] \notin known}
Describes(x, made) == x[1] \in made /\ x[2] \in Describing
\* The description of n: the bag of its predicates and objects.
About(out, made, n) ==
  LET S == {i \in DOMAIN out : out[i][1] = n /\ Describes(out[i], made)} IN
  [y \in {<<out[i][2], out[i][3]>> : i \in S} |-> Cardinality({i \in S : out[i][2] = y[1] /\ out[i][3] = y[2]})]
ObjectOf(a, p) == (CHOOSE y \in DOMAIN a : y[1] = p)[2]
IsStatementNode(a) ==
  /\ Cardinality(DOMAIN a) = 4 /\ \A y \in DOMAIN a : a[y] = 1
  /\ {y[1] : y \in DOMAIN a} = OfStatement
  /\ ObjectOf(a, RdfType) = <<"i", RdfStatement>>
  /\ ObjectOf(a, RdfPredicate)[1] = "i"
  /\ ObjectOf(a, RdfSubject)[1] \in {"b", "i"}
IsListNode(a, made) ==
  /\ Cardinality(DOMAIN a) = 3 /\ \A y \in DOMAIN a : a[y] = 1
  /\ {y[1] : y \in DOMAIN a} = OfList
  /\ ObjectOf(a, RdfType) = <<"i", RdfList>>
  /\ ObjectOf(a, RdfRest) \in made \cup {Nil}

\* D[n] is the description of a made node n.  Descriptions that are cyclic stand for nothing; the
\* nodes that are on no cycle are those that can be taken away one after another, last ones first.
Broken == <<"x">>
RECURSIVE OnCycles(_, _)
OnCycles(D, S) ==
  LET T == {n \in S : \E y \in DOMAIN D[n] : y[2] \in S} IN IF T = S THEN S ELSE OnCycles(D, T)
RECURSIVE Decode(_, _, _), Elements(_, _, _)
Decode(D, n, depth) ==
  IF n \notin DOMAIN D THEN n
  ELSE IF depth = 0 THEN Broken
  ELSE LET a == D[n] IN
    IF IsStatementNode(a)
    THEN <<"s", <<Decode(D, ObjectOf(a, RdfSubject), depth - 1), ObjectOf(a, RdfPredicate)[2],
                  Decode(D, ObjectOf(a, RdfObject), depth - 1)>>>>
    ELSE IF IsListNode(a, DOMAIN D) THEN <<"c", Elements(D, n, depth)>>
    ELSE Broken
Elements(D, n, depth) ==
  IF n = Nil THEN <<>>
  ELSE IF depth = 0 \/ n \notin DOMAIN D THEN <<Broken>>
  ELSE IF ~IsListNode(D[n], DOMAIN D) THEN <<Broken>>
  ELSE <<Decode(D, ObjectOf(D[n], RdfFirst), depth - 1)>> \o Elements(D, ObjectOf(D[n], RdfRest), depth - 1)

Depth == 1000
Descriptions(out, made) ==
  LET D == [n \in made |-> About(out, made, n)]  cyclic == OnCycles(D, made) IN
  [n \in made |-> IF n \in cyclic THEN BagOf(<<>>) ELSE D[n]]
RECURSIVE Reach(_, _)
Reach(D, S) ==
  LET T == S \cup (DOMAIN D \cap UNION {{y[2] : y \in DOMAIN D[n]} : n \in S}) IN
  IF T = S THEN S ELSE Reach(D, T)
Mains(out, made) == LET Main(x) == ~Describes(x, made) IN SelectSeq(out, Main)

\* The bag of statements that a simplified sequence of statements stands for.
Decoded(out, known) ==
  LET made == Made(out, known)  D == Descriptions(out, made)  m == Mains(out, made) IN
  BagOf([i \in DOMAIN m |-> <<Decode(D, m[i][1], Depth), m[i][2], Decode(D, m[i][3], Depth)>>])
\* Nothing but what they need is described.
NoMore(out, known, roots) ==
  LET made == Made(out, known)  D == Descriptions(out, made)  m == Mains(out, made) IN
  made = Reach(D, made \cap (roots \cup {m[i][1] : i \in DOMAIN m} \cup {m[i][3] : i \in DOMAIN m}))

SimplifyConf(g, r) ==
  LET out == r[3]  known == BlanksIn(g) IN
  /\ r[2] = g.name
  /\ Range(r[4]) = g.map
  /\ \A i \in DOMAIN out : Simple(out[i])
  /\ Decoded(out, known) = Image(NormOf, g.sts)
  /\ NoMore(out, known, {})

\* One node: n describes w, and so do the statements in out, and they say no more.
ReifyConf(w, n, out) ==
  LET known == Blanks(w)  made == Made(out, known) IN
  /\ \A i \in DOMAIN out : Simple(out[i])
  /\ Mains(out, made) = <<>>
  /\ Decode(Descriptions(out, made), n, Depth) = Norm(w)
  /\ NoMore(out, known, {n})

(***************************************************************************)
(* Skolemizing: some injective map of the blank nodes to IRIs that were    *)
(* not in the graph makes the graph from the original.                     *)
(***************************************************************************)
RECURSIVE Replace(_, _)
Replace(f, n) ==
  CASE n[1] = "b" -> <<"i", f[n[2]]>>
    [] n[1] = "s" -> <<"s", <<Replace(f, n[2][1]), n[2][2], Replace(f, n[2][3])>>>>
    [] n[1] = "c" -> <<"c", [i \in DOMAIN n[2] |-> Replace(f, n[2][i])]>>
    [] OTHER -> n
Skolemized(f, g) ==
  LET R(x) == <<Replace(f, x[1]), x[2], Replace(f, x[3])>> IN
  [g EXCEPT !.sts = Image(R, @), !.name = IF g.name[1] = "b" THEN Replace(f, g.name) ELSE g.name]
\* Whether the nodes open can have different ones of the IRIs new such that g is s.
RECURSIVE Skolems(_, _, _, _, _)
Skolems(f, open, new, g, s) ==
  IF open = {} THEN s = Skolemized(f, g)
  ELSE LET \* One that is alone in a statement, if there is any.
           alone == {l \in open : \E x \in DOMAIN g.sts : BlanksOf(x) \cap open = {l}}
           l == CHOOSE l \in (IF alone = {} THEN open ELSE alone) : TRUE
           rest == open \ {l}
           about == {x \in DOMAIN g.sts : l \in BlanksOf(x) /\ BlanksOf(x) \cap rest = {}} IN
       \E i \in new :
         LET h == f @@ (l :> i) IN
         /\ \A x \in about : LET y == <<Replace(h, x[1]), x[2], Replace(h, x[3])>> IN y \in DOMAIN s.sts /\ s.sts[y] = g.sts[x]
         /\ Skolems(h, rest, new \ {i}, g, s)
\* fresh is the sequence of IRIs that were not there, each with its code points.
SkolemConf(g, base, r, fresh) ==
  LET new == {fresh[i][1] : i \in DOMAIN fresh}  old == BlanksIn(g) IN
  /\ \A i \in DOMAIN fresh : I!IsGenid(base, fresh[i][2])
  /\ Cardinality(new) = Cardinality(old)
  /\ Skolems(<<>>, old, new, g, Seen(r))
=============================================================================
