------------------------------- MODULE DotText ------------------------------
(***************************************************************************)
(* The part of the DOT language that graphs are drawn in: one digraph of   *)
(* attributes, nodes and edges; no subgraphs, ports or HTML strings.       *)
(***************************************************************************)
EXTENDS Lexis, Cps

IdStart(c) == Alpha(c) \/ c = 95 \/ (c \in 128..1114111)
RECURSIVE IdEnd(_, _), NumberEnd(_, _), DotString(_, _, _)
IdEnd(t, i) == IF IdStart(At(t, i)) \/ At(t, i) \in Digits THEN IdEnd(t, i + 1) ELSE i
NumberEnd(t, i) == IF At(t, i) \in Digits \cup {46} THEN NumberEnd(t, i + 1) ELSE i
\* Only the quote is escaped; what other escapes stand for depends on the attribute.
DotString(t, i, v) ==
  LET c == At(t, i) IN
  IF c = 34 THEN <<i + 1, v>>
  ELSE IF c = Eof THEN Fail
  ELSE IF c = 92 /\ At(t, i + 1) = 34 THEN DotString(t, i + 2, Append(v, 34))
  ELSE IF c = 92 /\ At(t, i + 1) = 92 THEN DotString(t, i + 2, v \o <<92, 92>>)
  ELSE DotString(t, i + 1, Append(v, c))
Id(t, i) ==
  LET c == At(t, i) IN
  CASE c = 34 -> DotString(t, i + 1, <<>>)
    [] IdStart(c) -> <<IdEnd(t, i), SubSeq(t, i, IdEnd(t, i) - 1)>>
    [] c \in Digits -> <<NumberEnd(t, i), SubSeq(t, i, NumberEnd(t, i) - 1)>>
    [] OTHER -> Fail

\* Attributes: a set of names and values.
RECURSIVE AttributesRest(_, _, _)
AttributesRest(t, i, as) ==
  IF At(t, i) = 93 THEN <<Gap(t, i + 1), as>>
  ELSE LET n == Id(t, i) IN
  IF Failed(n) THEN Fail
  ELSE LET e == Gap(t, n[1]) IN
  IF At(t, e) # 61 THEN Fail
  ELSE LET v == Id(t, Gap(t, e + 1)) IN
  IF Failed(v) THEN Fail
  ELSE LET j == Gap(t, v[1]) IN
    AttributesRest(t, IF At(t, j) \in {44, 59} THEN Gap(t, j + 1) ELSE j, as \cup {<<n[2], v[2]>>})
AttributeList(t, i) == IF At(t, i) = 91 THEN AttributesRest(t, Gap(t, i + 1), {}) ELSE <<i, {}>>

\* r is <<nodes, edges>>, sequences of <<id, attributes>> and <<id, id, attributes>>.
RECURSIVE Statements(_, _, _)
Statements(t, i, r) ==
  IF At(t, i) = 125 THEN IF At(t, Gap(t, i + 1)) = Eof THEN <<"ok", r>> ELSE <<"refuse">>
  ELSE IF At(t, i) = 59 THEN Statements(t, Gap(t, i + 1), r)
  ELSE LET a == Id(t, i) IN
  IF Failed(a) THEN <<"refuse">>
  ELSE LET j == Gap(t, a[1]) IN
  IF At(t, j) = 61
  THEN LET v == Id(t, Gap(t, j + 1)) IN IF Failed(v) THEN <<"refuse">> ELSE Statements(t, Gap(t, v[1]), r)
  ELSE IF Starts(t, j, <<45, 62>>)
  THEN LET b == Id(t, Gap(t, j + 2)) IN
    IF Failed(b) THEN <<"refuse">>
    ELSE LET l == AttributeList(t, Gap(t, b[1])) IN
      IF Failed(l) THEN <<"refuse">> ELSE Statements(t, l[1], <<r[1], Append(r[2], <<a[2], b[2], l[2]>>)>>)
  ELSE LET l == AttributeList(t, j) IN
    IF Failed(l) THEN <<"refuse">> ELSE Statements(t, l[1], <<Append(r[1], <<a[2], l[2]>>), r[2]>>)
ReadDot(t) ==
  LET i == Gap(t, 1)  j == Gap(t, i + 7) IN
  IF ~Starts(t, i, Cps("digraph")) \/ At(t, j) # 123 THEN <<"refuse">> ELSE Statements(t, Gap(t, j + 1), <<<<>>, <<>>>>)

Values(as, n) == {a[2] : a \in {x \in as : x[1] = Cps(n)}}
=============================================================================
