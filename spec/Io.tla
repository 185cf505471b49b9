--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* Reading and writing graphs.  What was written is read by the            *)
(* specification of the syntax that it is in, and has to say what the      *)
(* graph says: the same statements, where nested statements and            *)
(* collections may be described by flat ones (see Simplify), blank nodes   *)
(* may lose their labels in syntaxes that can nest them, and no more.      *)
(* What is read is what the specification of the syntax reads.             *)
(*                                                                         *)
(* Texts are sequences of code points in documents and strings in graphs;  *)
(* dict, in an operation, relates them: a sequence of pairs of the two.    *)
(***************************************************************************)
EXTENDS Simplify, TLC
LOCAL N == INSTANCE Lines
LOCAL J == INSTANCE JsonText
LOCAL X == INSTANCE RdfXml
LOCAL U == INSTANCE TurtleText
LOCAL D == INSTANCE DotText
LOCAL E == INSTANCE Literals
LOCAL B == INSTANCE Utf8
LOCAL C == INSTANCE Cps

(***************************************************************************)
(* Reading.                                                                *)
(***************************************************************************)
LowerLang(n) == IF n[1] = "l" THEN <<"l", n[2], n[3], N!Lowered(n[4])>> ELSE n
ReadQuads(gs) ==
  UNION {{<<gs[i][1], gs[i][2][k][1], gs[i][2][k][2], LowerLang(gs[i][2][k][3])>> : k \in DOMAIN gs[i][2]} : i \in DOMAIN gs}
AsQuads(v) == IF Len(v) = 1 THEN v ELSE <<v[1], {<<<<"none">>, x[1], x[2], x[3]>> : x \in v[2]}>>
Verdict(fmt, t, known) ==
  CASE fmt = "nt" -> N!Read(t, FALSE, known)
    [] fmt = "nq" -> N!Read(t, TRUE, known)
    [] fmt = "json" -> J!ReadJson(t, known)
    [] fmt = "xml" -> AsQuads(X!ReadXml(t, known))
\* Nodes that have no label in a document, and labels.
RECURSIVE LabelsIn(_)
LabelsIn(n) ==
  CASE n[1] = "b" -> {n[2]}
    [] n[1] = "c" -> UNION {LabelsIn(n[2][i]) : i \in DOMAIN n[2]}
    [] OTHER -> {}
QuadLabels(Q) == UNION {LabelsIn(q[2]) \cup LabelsIn(q[4]) : q \in Q}
IsAnonymous(l) == Len(l) > 1 /\ l[1] = 0
Named(f, n) == IF n[1] = "b" THEN IF n[2] \in DOMAIN f THEN <<"b", f[n[2]]>> ELSE n ELSE n
NamedQuad(f, q) == <<q[1], Named(f, q[2]), q[3], Named(f, q[4])>>
\* Whether the nodes open can have different ones of the labels free such that the quads Q are those of R.
RECURSIVE Labelled(_, _, _, _, _)
Labelled(f, open, free, Q, R) ==
  IF open = {} THEN {NamedQuad(f, q) : q \in Q} = R
  ELSE LET l == CHOOSE l \in open : \A k \in open : Len(l) <= Len(k) IN
    \E b \in free :
      LET g == f @@ (l :> b)
          rest == open \ {l} IN
      /\ \A q \in Q : (l \in QuadLabels({q}) /\ QuadLabels({q}) \cap rest = {}) => NamedQuad(g, q) \in R
      /\ Labelled(g, rest, free \ {b}, Q, R)
SameQuads(Q, R) ==
  LET labels == QuadLabels(Q)
      open == {l \in labels : IsAnonymous(l)} IN
  IF open = {} THEN Q = R
  ELSE IF Cardinality(Q) # Cardinality(R) THEN FALSE
  ELSE Labelled(<<>>, open, QuadLabels(R) \ labels, Q, R)

\* XML literals are compared by the elements and the text that are in them.
IsXml(n) == X!IsXmlValue(n)
XmlRead(Q) == {<<q[1], q[2], q[3], X!XmlRead(q[4])>> : q \in Q}
ReadIs(fmt, t, known, r) ==
  LET v == Verdict(fmt, t, known)
      Same == r[1] = "ok" /\ (IF fmt = "xml" /\ \E q \in v[2] : IsXml(q[4])
                             THEN SameQuads(XmlRead(v[2]), XmlRead(ReadQuads(r[2]))) ELSE SameQuads(v[2], ReadQuads(r[2])))
              \* A name has one graph.
              /\ \A i, k \in DOMAIN r[2] : r[2][i][1] = r[2][k][1] => i = k IN
  CASE v[1] = "must" -> Same
    [] v[1] = "may" -> IF r[1] = "err" THEN TRUE ELSE Same
    [] v[1] = "refuse" -> r[1] = "err"
    [] OTHER -> TRUE
ReadConf(o) == ReadIs(o.fmt, o.t, Range(o.known), o.res)
\* Bytes that may be no text, from a source that may have failed before they were all read.
ReadBytesConf(o) ==
  LET d == B!Decode(o.bytes)  failed == o.res[1]  r == o.res[2] IN
  IF failed \/ d[1] = "bad" THEN r[1] = "err" ELSE ReadIs(o.fmt, d[2], Range(o.known), r)

(***************************************************************************)
(* From documents to graphs.                                               *)
(***************************************************************************)
StringOf(dict) == [c \in {dict[i][1] : i \in DOMAIN dict} |-> dict[CHOOSE i \in DOMAIN dict : dict[i][1] = c][2]]
CodesOf(dict, s) == dict[CHOOSE i \in DOMAIN dict : dict[i][2] = s][1]
\* A text that is in no graph is as good as any.
Str(S, c) == IF c \in DOMAIN S THEN S[c] ELSE "?" \o ToString(c)
RECURSIVE Told(_, _)
Told(S, n) ==
  CASE n[1] = "l" -> <<"l", Str(S, n[2]), Str(S, n[3]), Str(S, n[4])>>
    [] n[1] = "c" -> <<"c", [i \in DOMAIN n[2] |-> Told(S, n[2][i])]>>
    [] n[1] = "none" -> n
    [] OTHER -> <<n[1], Str(S, n[2])>>
ToldOf(S, x) == <<Told(S, x[1]), Str(S, x[2]), Told(S, x[3])>>
\* The labels of nodes that had none.
Anonymous(P) == {l \in UNION {LabelsIn(x[1]) \cup LabelsIn(x[3]) : x \in P} : IsAnonymous(l)}

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
RECURSIVE Renamed(_, _)
Renamed(f, n) ==
  CASE n[1] = "b" -> IF n[2] \in DOMAIN f THEN <<"b", f[n[2]]>> ELSE n
    [] n[1] = "c" -> <<"c", [i \in DOMAIN n[2] |-> Renamed(f, n[2][i])]>>
    [] OTHER -> n

Statements(g) == {NormOf(x) : x \in DOMAIN g.sts}
BlanksAmong(P) == UNION {BlanksOf(x) : x \in P}
\* P is a set of statements, known the labels that are not descriptions.
Says(P, S, known) ==
  IF \E x \in P : x[3][1] = "c"
  THEN P = S
  ELSE LET out == SetToSeq(P) IN
    /\ \A x \in P : Simple(x)
    /\ DOMAIN Decoded(out, known) = S
    /\ NoMore(out, known, {})
\* Whether the blank nodes open can be different ones of those that had no label, free, such that the
\* statements Q are S.  Simple statements are in both as they are.
RECURSIVE Finds(_, _, _, _, _, _)
Finds(f, open, free, Q, S, known) ==
  IF open = {}
  THEN LET back == [l \in {f[k] : k \in DOMAIN f} |-> CHOOSE k \in DOMAIN f : f[k] = l]
           R == {<<Renamed(back, x[1]), x[2], Renamed(back, x[3])>> : x \in Q} IN
       Says(R, S, known)
  ELSE LET simple == {x \in S : Simple(x) /\ BlanksOf(x) \cap open # {}}
           alone == {l \in open : \E x \in simple : BlanksOf(x) \cap open = {l}}
           l == CHOOSE l \in (IF alone = {} THEN open ELSE alone) : TRUE
           about == {x \in simple : BlanksOf(x) \cap open = {l}} IN
       \E b \in free :
         LET g == f @@ (l :> b) IN
         /\ \A x \in about : <<Renamed(g, x[1]), x[2], Renamed(g, x[3])>> \in Q
         /\ Finds(g, open \ {l}, free \ {b}, Q, S, known)
\* P is a set of statements in code points.
SaysGraph(P, g, dict) ==
  LET T == StringOf(dict)
      Q == {NormOf(ToldOf(T, x)) : x \in P}
      free == {Str(T, l) : l \in Anonymous(P)}
      known == BlanksAmong(DOMAIN g.sts)
      lost == known \ BlanksAmong(Q) IN
  IF lost = {} THEN Says(Q, Statements(g), known)
  ELSE IF Cardinality(free) < Cardinality(lost) THEN FALSE
  ELSE Finds(<<>>, lost, free, Q, Statements(g), known)

TriplesOf(quads) == {<<q[2], q[3], q[4]>> : q \in quads}
NamesOf(quads) == {q[1] : q \in quads}
\* What was read back is what was written.
Back(r, quads) == r[1] = "ok" /\ SameQuads(quads, ReadQuads(r[2]))

\* The names and texts that are in a document need not be known.
AnyLines(t, q) == LET r == N!Rest(t, N!Gap(t, 1), q, N!Read0) IN IF r[1] = "ok" /\ r[2][2] THEN <<"must", r[2][1]>> ELSE <<"refuse">>
AnyJson(t) ==
  LET v == J!Json(t) IN
  IF J!Failed(v) THEN <<"refuse">>
  ELSE IF J!DocumentVerdict(v[2], {}) = "refuse" THEN <<"refuse">> ELSE <<"must", J!QuadsOf(v[2])>>

XmlQuads(t) == AsQuads(X!ReadXml(t, {}))
\* The graph that is written with a base: IRIs that begin with to_base begin with the base instead.
Moved(w, dict, s) ==
  LET c == CodesOf(dict, s)  p == CodesOf(dict, w.to_base) IN
  IF Len(p) <= Len(c) /\ SubSeq(c, 1, Len(p)) = p
  THEN StringOf(dict)[CodesOf(dict, w.base) \o SubSeq(c, Len(p) + 1, Len(c))] ELSE s
RECURSIVE MovedNode(_, _, _)
MovedNode(w, dict, n) ==
  CASE n[1] = "i" -> <<"i", Moved(w, dict, n[2])>>
    [] n[1] = "l" -> <<"l", n[2], IF n[3] = "" THEN "" ELSE Moved(w, dict, n[3]), n[4]>>
    [] n[1] = "c" -> <<"c", [i \in DOMAIN n[2] |-> MovedNode(w, dict, n[2][i])]>>
    [] n[1] = "s" -> <<"s", <<MovedNode(w, dict, n[2][1]), Moved(w, dict, n[2][2]), MovedNode(w, dict, n[2][3])>>>>
    [] OTHER -> n
MovedGraph(w, dict, g) ==
  IF "base" \in DOMAIN w /\ "to_base" \in DOMAIN w
  THEN [g EXCEPT !.sts = LET f(x) == <<MovedNode(w, dict, x[1]), Moved(w, dict, x[2]), MovedNode(w, dict, x[3])>>
                         IN [y \in {f(x) : x \in DOMAIN @} |-> 1]]
  ELSE g

TurtleQuads(t) == AsQuads(U!ReadTurtle(t))

\* What XML can say: a predicate is the name of an element, and some characters are in no document.
NoXml == {0, 65534, 65535}
Ends(c) == \E k \in 1..Len(c) : X!NameStart(c[k]) /\ \A i \in k..Len(c) : X!NameChar(c[i])
XmlName(p) == Ends(p)
XmlLabel(l) == X!NameStart(l[1]) /\ \A i \in DOMAIN l : X!NameChar(l[i])
RECURSIVE TextsIn(_)
TextsIn(n) ==
  CASE n[1] = "l" -> {n[2]}
    [] n[1] = "s" -> TextsIn(n[2][1]) \cup TextsIn(n[2][3])
    [] n[1] = "c" -> UNION {TextsIn(n[2][i]) : i \in DOMAIN n[2]}
    [] OTHER -> {}
XmlCanSay(g, dict) ==
  /\ \A x \in DOMAIN g.sts : Ends(CodesOf(dict, x[2]))
  /\ \A t \in UNION {TextsIn(x[1]) \cup TextsIn(x[3]) : x \in DOMAIN g.sts} : Range(CodesOf(dict, t)) \cap NoXml = {}

\* r is <<"ok", document, what was read back>>.
WriteOne(fmt, w, v, r, dict) ==
  LET g == GraphOf(v) IN
  IF fmt = "xml" /\ ~XmlCanSay(g, dict) THEN r[1] = "err"
  ELSE IF r[1] # "ok" THEN FALSE
  ELSE CASE fmt \in {"nt", "nq", "json"} ->
              LET d == IF fmt = "json" THEN AnyJson(r[2]) ELSE AnyLines(r[2], fmt = "nq") IN
              IF d[1] # "must" THEN FALSE
              ELSE /\ \A n \in NamesOf(d[2]) : Told(StringOf(dict), n) = IF fmt = "nq" THEN g.name ELSE None
                   /\ SaysGraph(TriplesOf(d[2]), g, dict)
                   /\ Back(r[3], d[2])
         [] fmt = "xml" -> LET d == X!ReadXml(r[2], {}) IN
              IF d[1] # "must" THEN FALSE
              ELSE /\ SaysGraph(d[2], g, dict)
                   /\ Back(r[3], {<<<<"none">>, x[1], x[2], x[3]>> : x \in d[2]})
         [] fmt = "turtle" -> LET d == U!ReadTurtle(r[2]) IN IF d[1] # "must" THEN FALSE ELSE SaysGraph(d[2], MovedGraph(w, dict, g), dict)
WriteConf(o) == Len(o.res) = Len(o.vs) /\ \A i \in DOMAIN o.vs : WriteOne(o.fmt, o.with, o.vs[i], o.res[i], o.dict)

\* A data set of graphs with different names, in one document: blank nodes are shared, descriptions are not.
WriteSetConf(o) ==
  LET r == o.res[1]  d == IF r[1] = "ok" THEN AnyLines(r[2], TRUE) ELSE <<"refuse">> IN
  IF d[1] # "must" THEN FALSE
  ELSE LET T == StringOf(o.dict)
           G == [i \in DOMAIN o.vs |-> GraphOf(o.vs[i])]
           Of(i) == {q \in d[2] : Told(T, q[1]) = G[i].name}
           Told2(i) == {NormOf(ToldOf(T, x)) : x \in TriplesOf(Of(i))}
           known == UNION {BlanksAmong(DOMAIN G[i].sts) : i \in DOMAIN G} IN
    /\ d[2] = UNION {Of(i) : i \in DOMAIN G}
    /\ \A i \in DOMAIN G : Says(Told2(i), Statements(G[i]), known)
    /\ \A i, k \in DOMAIN G : i # k => BlanksAmong(Told2(i)) \cap BlanksAmong(Told2(k)) \subseteq known
    /\ Back(r[3], d[2])

(***************************************************************************)
(* Drawing: v is a graph of flat statements, as it was drawn; S are its    *)
(* statements in code points, except for the labels of blank nodes, which  *)
(* are whatever tells the nodes apart.                                     *)
(***************************************************************************)
NodesOf(S) == {x[1] : x \in S} \cup {x[3] : x \in S}
Field(w, f, default) == IF f \in DOMAIN w THEN w[f] ELSE default
ShapeOf(w, f, shape) == IF f \in DOMAIN w THEN w[f] \o "S" ELSE shape
ColorOf(w, f, color) == IF f \in DOMAIN w THEN w[f] \o "C" ELSE color
Shown(t) == D!DotString(Append(E!Escape(t), 34), 1, <<>>)[2]
\* Whether a node that is drawn with id and attributes as may be node n.
MayBe(w, id, as, n) ==
  LET label == D!Values(as, "label")  url == D!Values(as, "URL")
      text(s) == {C!Cps(s)} IN
  CASE n[1] = "b" ->
         /\ label = IF Field(w, "labels", FALSE) THEN {id} ELSE {<<>>}
         /\ url = {}
         /\ D!Values(as, "shape") = text(ShapeOf(w, "blank", "circle"))
         /\ D!Values(as, "color") = text(ColorOf(w, "blank", "green"))
    [] n[1] = "i" ->
         /\ label = {n[2]} /\ url = {n[2]}
         /\ D!Values(as, "shape") = text(ShapeOf(w, "iri", "ellipse"))
         /\ D!Values(as, "color") = text(ColorOf(w, "iri", "blue"))
    [] n[1] = "l" ->
         /\ label = {Shown(n[2])} /\ url = {}
         /\ D!Values(as, "shape") = text(ShapeOf(w, "literal", "record"))
         /\ D!Values(as, "color") = text(ColorOf(w, "literal", "black"))
    [] OTHER -> FALSE
\* The label of an edge for predicate p: the IRI, or a name that is mapped to it; map are pairs of a name and a part of an IRI.
Names(p, map) ==
  {p} \cup {m[1] \o SubSeq(p, Len(m[2]) + 1, Len(p)) :
              m \in {m \in map : Len(m[2]) < Len(p) /\ SubSeq(p, 1, Len(m[2])) = m[2]}}
\* Whether the drawn nodes that f does not map yet can be mapped to different ones of may, such that
\* edges, <<from, labels, to>>, and statements, <<node, sets of labels, node>>, are the same.
Fits(f, k, n, edges, told) ==
  LET h == f @@ (k :> n)  at == DOMAIN h
      IsDrawn(e, x) == x[1] = h[e[1]] /\ e[2] \in x[2] /\ x[3] = h[e[3]] IN
  /\ \A e \in {e \in edges : k \in {e[1], e[3]} /\ e[1] \in at /\ e[3] \in at} : \E x \in told : IsDrawn(e, x)
  /\ \A x \in {x \in told : n \in {x[1], x[3]} /\ x[1] \in Range(h) /\ x[3] \in Range(h)} :
       \E e \in edges : e[1] \in at /\ e[3] \in at /\ IsDrawn(e, x)
RECURSIVE Mapped(_, _, _, _)
Mapped(f, may, edges, told) ==
  LET open == DOMAIN may \ DOMAIN f  used == Range(f)
      can == [k \in open |-> {n \in may[k] \ used : Fits(f, k, n, edges, told)}] IN
  IF open = {} THEN TRUE
  ELSE LET k == CHOOSE k \in open : \A j \in open : Cardinality(can[k]) <= Cardinality(can[j]) IN
    \E n \in can[k] : Mapped(f @@ (k :> n), may, edges, told)
Draws(w, S, map, t) ==
  LET d == D!ReadDot(t) IN
  IF d[1] # "ok" THEN FALSE
  ELSE LET nodes == d[2][1]  edges == d[2][2]
           ids == {nodes[i][1] : i \in DOMAIN nodes}
           prefix == C!Cps(Field(w, "prefix", "node_"))
           at(id) == CHOOSE i \in DOMAIN nodes : nodes[i][1] = id
           may == [k \in DOMAIN nodes |-> {n \in NodesOf(S) : MayBe(w, nodes[k][1], nodes[k][2], n)}]
           Drawn == {<<at(e[1]), D!Values(e[3], "label"), at(e[2])>> : e \in Range(edges)}
           Told3 == {<<x[1], {{n} : n \in Names(x[2], map)}, x[3]>> : x \in S} IN
    /\ Cardinality(ids) = Len(nodes)
    /\ Len(nodes) = Cardinality(NodesOf(S))
    /\ \A id \in ids : Len(id) > Len(prefix) /\ SubSeq(id, 1, Len(prefix)) = prefix
    /\ \A e \in Range(edges) : e[1] \in ids /\ e[2] \in ids
    /\ Mapped(<<>>, may, Drawn, Told3)
Coded(dict, n) ==
  CASE n[1] = "i" -> <<"i", CodesOf(dict, n[2])>>
    [] n[1] = "l" -> <<"l", CodesOf(dict, n[2]), CodesOf(dict, n[3]), CodesOf(dict, n[4])>>
    [] OTHER -> n
DrawOne(w, v, r, dict) ==
  IF r[1] # "ok" THEN FALSE
  ELSE LET g == Seen(v) IN
    Draws(w, {<<Coded(dict, x[1]), CodesOf(dict, x[2]), Coded(dict, x[3])>> : x \in DOMAIN g.sts},
          {<<CodesOf(dict, m[1]), CodesOf(dict, m[2])>> : m \in g.map}, r[2])
DrawConf(o) ==
  /\ Len(o.res[1]) = Len(o.vs) /\ Len(o.res[2]) = Len(o.vs)
  /\ \A i \in DOMAIN o.vs : DrawOne(o.with, o.res[1][i], o.res[2][i], o.dict)

\* Sinks that may have refused a part of a document: that is an error, and the next document is right.
WriteToConf(o) ==
  /\ Len(o.res) = Len(o.vs)
  /\ \A i \in DOMAIN o.vs :
       LET refused == o.res[i][1]  r == o.res[i][2] IN
       IF refused THEN r[1] = "err"
       ELSE IF o.fmt = "dot" THEN DrawOne(o.with, o.vs[i], r, o.dict)
       ELSE WriteOne(o.fmt, o.with, o.vs[i], r, o.dict)

IoConf(o) ==
  CASE o.op = "io.read" -> ReadConf(o)
    [] o.op = "io.write" -> WriteConf(o)
    [] o.op = "io.read_bytes" -> ReadBytesConf(o)
    [] o.op = "io.write_to" -> WriteToConf(o)
    [] o.op = "io.write_set" -> WriteSetConf(o)
    [] o.op = "io.draw" -> DrawConf(o)
IoWant(o) ==
  CASE o.op = "io.read" -> Verdict(o.fmt, o.t, Range(o.known))
    [] o.op = "io.read_bytes" ->
         LET d == B!Decode(o.bytes) IN IF d[1] = "bad" THEN <<"refuse">> ELSE Verdict(o.fmt, d[2], Range(o.known))
    [] OTHER -> "a document that says what the graph says"
=============================================================================
