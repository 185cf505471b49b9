-------------------------------- MODULE Nodes -------------------------------
(***************************************************************************)
(* Nodes, statements and graph names: how they print, what they turn into  *)
(* and how they are ordered.  Their texts are code points here.            *)
(***************************************************************************)
EXTENDS Literals, FiniteSets

BlankPrefix == <<95, 58>>
BlankLabel(t) == IF StartsWith(t, BlankPrefix) THEN From(t, 3) ELSE t
IsBlank(t) == IsOk(Name(BlankLabel(t)))
Space == <<32>>
RECURSIVE Shown(_, _), ShownAll(_)
ShownStatement(x) == Shown(x[1], FALSE) \o Space \o Bracket(x[2]) \o Space \o Shown(x[3], FALSE)
ShownAll(ns) ==
  IF ns = <<>> THEN <<>>
  ELSE IF Len(ns) = 1 THEN Shown(ns[1], FALSE) ELSE Shown(ns[1], FALSE) \o Space \o ShownAll(Tail(ns))
Shown(n, alternate) ==
  CASE n[1] = "b" -> BlankPrefix \o n[2]
    [] n[1] = "i" -> Bracket(n[2])
    [] n[1] = "l" -> LiteralText(n, alternate)
    [] n[1] = "c" -> <<40, 32>> \o ShownAll(n[2]) \o <<32, 41>>
    [] n[1] = "s" -> <<60, 60, 32>> \o ShownStatement(n[2]) \o <<32, 62, 62>>

IsSubject(n) == n[1] \in {"b", "i", "s"}
Is(n, kinds) == [i \in 1..Len(kinds) |-> n[1] = kinds[i]]
Nested(x) == x[1][1] = "s" \/ x[3][1] = "s"

(***************************************************************************)
(* The order: blank nodes, resources, literals, collections, statements;   *)
(* each by their texts, elements or components.  The order of data types   *)
(* is left open ("free").                                                  *)
(***************************************************************************)
Rank(n) == CASE n[1] = "b" -> 1 [] n[1] = "i" -> 2 [] n[1] = "l" -> 3 [] n[1] = "c" -> 4 [] n[1] = "s" -> 5
ByNumber(a, b) == IF a = b THEN "eq" ELSE IF a < b THEN "lt" ELSE "gt"
\* The absence of something is before any of it.
ByPresence(a, b, presentOrder) ==
  IF a = <<>> /\ b = <<>> THEN "eq" ELSE IF a = <<>> THEN "lt" ELSE IF b = <<>> THEN "gt" ELSE presentOrder
Then(first, second) == IF first = "eq" THEN second ELSE first
OrderLiterals(a, b) ==
  Then(ByPresence(a[3], b[3], IF a[3] = b[3] THEN "eq" ELSE "free"),
       Then(ByPresence(a[4], b[4], Order(a[4], b[4])), Order(Escape(a[2]), Escape(b[2]))))
RECURSIVE OrderNodes(_, _), OrderStatements(_, _), OrderAll(_, _)
OrderNodes(a, b) ==
  IF Rank(a) # Rank(b) THEN ByNumber(Rank(a), Rank(b))
  ELSE CASE a[1] \in {"b", "i"} -> Order(a[2], b[2])
         [] a[1] = "l" -> OrderLiterals(a, b)
         [] a[1] = "c" -> OrderAll(a[2], b[2])
         [] a[1] = "s" -> OrderStatements(a[2], b[2])
OrderStatements(a, b) ==
  Then(OrderNodes(a[1], b[1]), Then(Order(a[2], b[2]), OrderNodes(a[3], b[3])))
OrderAll(a, b) ==
  IF a = <<>> \/ b = <<>> THEN ByNumber(Len(a), Len(b))
  ELSE Then(OrderNodes(a[1], b[1]), OrderAll(Tail(a), Tail(b)))
Flip(x) == CASE x = "lt" -> "gt" [] x = "gt" -> "lt" [] OTHER -> x

\* m[i][j] compares v[i] with v[j]: equal, order, partial order, hashes equal, less, less or equal.
Compared(v, m, F(_, _)) ==
  LET N == DOMAIN v  ord(i, j) == m[i][j][2] IN
  /\ \A i, j \in N :
       LET r == m[i][j]  w == F(v[i], v[j]) IN
       /\ r[1] = (v[i] = v[j])
       /\ w # "free" => r[2] = w
       /\ (r[2] = "eq") = r[1]
       /\ r[3] = Some(r[2])
       /\ r[1] => r[4]
       /\ r[5] = (r[2] = "lt")
       /\ r[6] = (r[2] # "gt")
       /\ r[2] = Flip(ord(j, i))
  /\ \A i, j, k \in N : (ord(i, j) = "lt" /\ ord(j, k) = "lt") => ord(i, k) = "lt"
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Sorted(v, r) ==
  /\ Len(v) = Len(r) /\ \A x \in Range(v) : Count(v, x) = Count(r, x)
  /\ \A i, j \in DOMAIN r : i < j => OrderNodes(r[i], r[j]) # "gt"

(***************************************************************************)
(* Results of the operations on the real code, see harness/core.           *)
(***************************************************************************)
Opt2(c, x) == IF c THEN Some(x) ELSE None
NodesWant(o) ==
  CASE o.op = "node.display" -> << Shown(o.n, FALSE), Shown(o.n, TRUE) >>
    [] o.op = "node.display_statement" -> << ShownStatement(o.s) >>
    [] o.op = "node.display_name" ->
         << Shown(o.n, FALSE), o.n[1] = "b", o.n[1] = "i", Opt2(o.n[1] = "b", o.n[2]), Opt2(o.n[1] = "i", o.n[2]), TRUE >>
    [] o.op = "node.collection" ->
         << Len(o.c[2]), o.c[2] = <<>>, o.c[2], o.c[2], o.c[2], TRUE, o.c[2] = <<>> >>
    [] o.op = "node.rdf_type" -> << <<o.n, RdfNs \o <<116, 121, 112, 101>>, <<"i", o.p>>>> >>
    [] o.op = "node.variants" ->
         LET st == <<o.n, o.p, o.n>>
             edited == <<IF IsSubject(o.other) THEN o.other ELSE o.n, o.q, o.other>> IN
         << Is(o.n, <<"b", "i", "l", "c", "s">>), Opt2(IsSubject(o.n), Is(o.n, <<"b", "i", "s">>)),
            Opt2(IsSubject(o.n), o.n), Opt2(IsSubject(o.n), o.n), Is(o.n, <<"b", "i", "l", "c", "s">>), TRUE,
            Opt2(IsSubject(o.n), <<st, Nested(st)>>), Opt2(IsSubject(o.n), edited) >>
    [] o.op = "node.ways" ->
         LET k == o.n[1]
             all(n, x) == [i \in 1..n |-> x]
             \* How many ways there are to make each kind of thing of each kind of node.
             ways == CASE k = "b" -> <<7, 7, 8, 6>> [] k = "i" -> <<3, 4, 6, 4>> [] k = "l" -> <<0, 3, 6, 0>>
                       [] k = "c" -> <<0, 3, 4, 0>> [] k = "s" -> <<5, 6, 8, 0>> IN
         << all(ways[1], o.n), all(ways[2], o.n), all(ways[3], <<o.n>>), all(ways[4], o.n) >>
    [] o.op = "node.equal" -> LET e == o.a = o.b IN << e, e, e >>
    [] o.op = "node.features" ->
         \* RDF-star, lists as objects, as subjects, formulas, duplicates, a graph of all graphs.
         LET yes(n) == [i \in 1..6 |-> i <= n] IN
         << yes(2), Opt2(IsSubject(o.n), yes(1)), Opt2(IsSubject(o.n), yes(2)), yes(0) >>
    [] o.op = "node.blank" ->
         LET l == BlankLabel(o.t)  q == BlankPrefix \o l IN
         << IsBlank(o.t), IF IsBlank(o.t) THEN <<"ok", <<l, l, q, q, l, l, q>>>> ELSE <<"err">> >>
    [] o.op = "node.blank_eq" ->
         LET a == BlankLabel(o.a)  b == BlankLabel(o.b) IN
         << a = b, a = b, a = b, a = b, Order(a, b) >>
    [] o.op = "node.generate" -> << o.n * o.threads, TRUE, TRUE, "valid labels" >>
    [] o.op = "node.collide" -> << TRUE >>
    [] OTHER -> "see Nodes.tla"

NodesConf(o) ==
  CASE o.op \in {"node.cmp_subject", "node.cmp_object", "node.cmp_literal"} -> Compared(o.v, o.res, OrderNodes)
    [] o.op = "node.cmp_statement" -> Compared(o.v, o.res, OrderStatements)
    [] o.op = "node.sort" -> Sorted(o.v, o.res)
    [] o.op = "node.generate" ->
         LET r == o.res IN r[1] = o.n * o.threads /\ r[2] /\ r[3] /\ \A i \in DOMAIN r[4] : IsBlank(r[4][i])
    [] o.op = "node.blank_eq" ->
         LET w == NodesWant(o) IN
         \A i \in {1, 3, 4, 5} : o.res[i] = w[i] /\ (w[1] => o.res[2])
    [] OTHER -> o.res = NodesWant(o)
=============================================================================
