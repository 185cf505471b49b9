------------------------------- MODULE XmlText ------------------------------
(***************************************************************************)
(* XML with namespaces, as far as RDF/XML is written in it: no document    *)
(* type and no encodings other than UTF-8.                                 *)
(* An element is <<"e", namespace, local name, attributes, children>>, an  *)
(* attribute is <<namespace, local name, value>>, a child is an element or *)
(* <<"t", text>> or <<"t", text, "cdata">>.                                *)
(***************************************************************************)
EXTENDS Lexis, Cps

White == {32, 9, 10, 13}
RECURSIVE Blank(_, _)
Blank(t, i) == IF At(t, i) \in White THEN Blank(t, i + 1) ELSE i

NameStart(c) == c # Eof /\ N!PnCharsU(c)
NameChar(c) == c # Eof /\ (N!PnChars(c) \/ c = 46)
RECURSIVE NcEnd(_, _)
NcEnd(t, i) == IF NameChar(At(t, i)) THEN NcEnd(t, i + 1) ELSE i
\* White space in an attribute is a space, some of what starts with < is not in attributes, and a local
\* name starts as a name does, but readers may not know that: it is read as, or marked with, this.
Questionable == 1114113
\* A name: <<position, prefix, local name>>.
QName(t, i) ==
  IF ~NameStart(At(t, i)) THEN Fail
  ELSE LET j == NcEnd(t, i) IN
    IF At(t, j) # 58 THEN <<j, <<>>, SubSeq(t, i, j - 1)>>
    ELSE LET k == NcEnd(t, j + 1) IN
      IF k = j + 1 \/ At(t, k) = 58 THEN Fail
      ELSE <<k, SubSeq(t, i, j - 1), SubSeq(t, j + 1, k - 1) \o (IF NameStart(t[j + 1]) THEN <<>> ELSE <<Questionable>>)>>

RECURSIVE DecimalEnd(_, _, _), HexEnd(_, _, _)
DecimalEnd(t, i, v) ==
  IF At(t, i) \in Digits /\ v < 200000 THEN DecimalEnd(t, i + 1, 10 * v + t[i] - 48) ELSE <<i, v>>
HexEnd(t, i, v) ==
  IF At(t, i) # Eof /\ L!IsHex(At(t, i)) /\ v < 1048576 THEN HexEnd(t, i + 1, 16 * v + L!HexValue(t[i])) ELSE <<i, v>>
Entities == {<<Cps("&lt;"), 60>>, <<Cps("&gt;"), 62>>, <<Cps("&amp;"), 38>>, <<Cps("&quot;"), 34>>, <<Cps("&apos;"), 39>>}
Reference(t, i) ==
  IF \E e \in Entities : Starts(t, i, e[1])
  THEN LET e == CHOOSE e \in Entities : Starts(t, i, e[1]) IN <<i + Len(e[1]), e[2]>>
  ELSE IF At(t, i + 1) # 35 THEN Fail
  ELSE LET n == IF At(t, i + 2) = 120 THEN HexEnd(t, i + 3, 0) ELSE DecimalEnd(t, i + 2, 0) IN
    IF At(t, n[1]) # 59 \/ ~Scalar(n[2]) \/ n[2] = 0 THEN Fail ELSE <<n[1] + 1, n[2]>>

\* What a line end in the text is read as.
Normal(c) == IF c \in {13, 133, 8232} THEN 10 ELSE c
RECURSIVE AttValue(_, _, _, _), CharData(_, _, _)
AttValue(t, i, q, v) ==
  LET c == At(t, i) IN
  IF c = q THEN <<i + 1, v>>
  ELSE IF c = Eof \/ (c = 60 /\ At(t, i + 1) \notin {33, 47}) THEN Fail
  ELSE IF c = 38
  THEN LET r == Reference(t, i) IN IF Failed(r) THEN Fail ELSE AttValue(t, r[1], q, Append(v, r[2]))
  ELSE AttValue(t, i + 1, q, Append(v, IF c # 32 /\ c \in White \cup {60} THEN Questionable ELSE c))
CharData(t, i, v) ==
  LET c == At(t, i) IN
  IF c = 60 \/ c = Eof THEN <<i, v>>
  ELSE IF c = 38
  THEN LET r == Reference(t, i) IN IF Failed(r) THEN Fail ELSE CharData(t, r[1], Append(v, r[2]))
  ELSE CharData(t, i + 1, Append(v, Normal(c)))

\* Attributes: <<position of > or />, sequence of <<prefix, local name, value>>>>.
RECURSIVE Attributes(_, _, _)
Attributes(t, i, as) ==
  LET j == Blank(t, i) IN
  IF At(t, j) = 62 \/ Starts(t, j, <<47, 62>>) THEN <<j, as>>
  ELSE IF j = i THEN Fail
  ELSE LET n == QName(t, j) IN
  IF Failed(n) THEN Fail
  ELSE LET e == Blank(t, n[1])  q == Blank(t, e + 1) IN
  IF At(t, e) # 61 \/ At(t, q) \notin {34, 39} THEN Fail
  ELSE LET v == AttValue(t, q + 1, t[q], <<>>) IN
  IF Failed(v) THEN Fail ELSE Attributes(t, v[1], Append(as, <<n[2], n[3], v[2]>>))

XmlNs == Cps("http://www.w3.org/XML/1998/namespace")
Xmlns == Cps("xmlns")
\* Namespace declarations among attributes, and what a prefix is bound to: scope is a sequence, the last counts.
Declarations(as) ==
  LET D(a) == a[1] = Xmlns \/ (a[1] = <<>> /\ a[2] = Xmlns)
      d == SelectSeq(as, D) IN
  [i \in DOMAIN d |-> IF d[i][1] = Xmlns THEN <<d[i][2], d[i][3]>> ELSE <<<<>>, d[i][3]>>]
Bound(scope, p) == p = Cps("xml") \/ \E i \in DOMAIN scope : scope[i][1] = p
Binding(scope, p) ==
  IF p = Cps("xml") THEN XmlNs
  ELSE scope[CHOOSE i \in DOMAIN scope : scope[i][1] = p /\ \A j \in DOMAIN scope : scope[j][1] = p => j <= i][2]
Resolved(scope, p) == IF Bound(scope, p) THEN Binding(scope, p) ELSE <<>>

\* Where p starts at or behind i, or 0.
Find(t, i, p) ==
  LET last == Len(t) - Len(p) + 1 IN
  IF \E k \in i..last : Starts(t, k, p) THEN CHOOSE k \in i..last : Starts(t, k, p) /\ \A j \in i..(k - 1) : ~Starts(t, j, p) ELSE 0
CdataStart == Cps("<![CDATA[")
CdataEnd == Cps("]]>")
Normalized(v) == [i \in DOMAIN v |-> Normal(v[i])]
\* The position behind a comment or a processing instruction, or 0.
Misc(t, i) ==
  IF Starts(t, i, Cps("<!--"))
  THEN LET j == Find(t, i + 4, Cps("--")) IN IF j = 0 \/ At(t, j + 2) # 62 THEN 0 ELSE j + 3
  ELSE LET n == QName(t, i + 2)  j == Find(t, i + 2, <<63, 62>>) IN
    IF At(t, i + 1) # 63 \/ Failed(n) \/ j = 0 THEN 0
    ELSE IF n[2] # <<>> \/ Lowered(n[3]) = Cps("xml") \/ ~(n[1] = j \/ At(t, n[1]) \in White) THEN 0
    ELSE j + 2

\* Processing instructions have names, without ':', but readers may not know that.
RECURSIVE ColonEnd(_, _)
ColonEnd(t, i) == IF NameChar(At(t, i)) \/ At(t, i) = 58 THEN ColonEnd(t, i + 1) ELSE i
OddInstruction(t) ==
  \E i \in DOMAIN t :
    /\ t[i] = 60 /\ At(t, i + 1) = 63
    /\ At(t, i + 2) \in White \/ \E k \in (i + 2)..(ColonEnd(t, i + 2) - 1) : t[k] = 58

RECURSIVE Element(_, _, _), Content(_, _, _, _)
\* The element whose < is at i.
Element(t, i, outer) ==
  LET n == QName(t, i + 1) IN
  IF Failed(n) THEN Fail
  ELSE LET a == Attributes(t, n[1], <<>>) IN
  IF Failed(a) THEN Fail
  ELSE LET scope == outer \o Declarations(a[2])
           Plain(x) == ~(x[1] = Xmlns \/ (x[1] = <<>> /\ x[2] = Xmlns))
           as == SelectSeq(a[2], Plain)
           told == {<<IF as[k][1] = <<>> THEN <<>> ELSE Resolved(scope, as[k][1]), as[k][2], as[k][3]>> : k \in DOMAIN as}
           Marked(v) == v # <<>> /\ v[Len(v)] = Questionable
           \* An attribute that is there twice, with different prefixes, may be overlooked.
           atts == IF /\ Cardinality({<<x[1], x[2]>> : x \in told}) = Len(as)
                      /\ ~Marked(n[3]) /\ \A k \in DOMAIN a[2] : ~Marked(a[2][k][2])
                   THEN told ELSE told \cup {<<<<>>, <<>>, <<Questionable>>>>}
       IN
    IF n[2] # <<>> /\ ~Bound(scope, n[2]) THEN Fail
    ELSE IF \E k \in DOMAIN as : as[k][1] # <<>> /\ ~Bound(scope, as[k][1]) THEN Fail
    ELSE IF Cardinality({<<x[1], x[2]>> : x \in {a[2][k] : k \in DOMAIN a[2]}}) # Len(a[2]) THEN Fail
    ELSE IF At(t, a[1]) = 47 THEN <<a[1] + 2, <<"e", Resolved(scope, n[2]), n[3], atts, <<>>>>>>
    ELSE LET c == Content(t, a[1] + 1, scope, <<>>) IN
      IF Failed(c) THEN Fail
      ELSE LET m == QName(t, c[1] + 2) IN
        IF Failed(m) THEN Fail
        ELSE IF m[2] # n[2] \/ m[3] # n[3] \/ At(t, Blank(t, m[1])) # 62 THEN Fail
        ELSE <<Blank(t, m[1]) + 1, <<"e", Resolved(scope, n[2]), n[3], atts, c[2]>>>>
\* What is in an element: <<position of its end tag, children>>.
Content(t, i, scope, cs) ==
  IF Starts(t, i, <<60, 47>>) THEN <<i, cs>>
  ELSE IF At(t, i) = Eof THEN Fail
  ELSE IF Starts(t, i, CdataStart)
  THEN LET j == Find(t, i + 9, CdataEnd) IN
    IF j = 0 THEN Fail ELSE Content(t, j + 3, scope, Append(cs, <<"t", Normalized(SubSeq(t, i + 9, j - 1)), "cdata">>))
  ELSE IF Starts(t, i, <<60, 33>>) \/ Starts(t, i, <<60, 63>>)
  THEN LET j == Misc(t, i) IN IF j = 0 THEN Fail ELSE Content(t, j, scope, cs)
  ELSE IF At(t, i) = 60
  THEN LET e == Element(t, i, scope) IN IF Failed(e) THEN Fail ELSE Content(t, e[1], scope, Append(cs, e[2]))
  ELSE LET d == CharData(t, i, <<>>) IN
    IF Failed(d) THEN Fail ELSE Content(t, d[1], scope, Append(cs, <<"t", d[2]>>))

RECURSIVE Past(_, _)
Past(t, i) ==
  LET j == Blank(t, i)  k == Misc(t, j) IN
  IF Starts(t, j, <<60, 33>>) \/ Starts(t, j, <<60, 63>>) THEN IF k = 0 THEN j ELSE Past(t, k) ELSE j
\* The XML declaration: <<position behind it, version, encoding>>.
Declaration(t) ==
  IF ~(Starts(t, 1, Cps("<?xml")) /\ At(t, 6) \in White) THEN <<1, Cps("1.0"), <<>>>>
  ELSE LET j == Find(t, 6, <<63, 62>>) IN
  IF j = 0 THEN Fail
  ELSE LET a == Attributes(SubSeq(t, 1, j - 1) \o <<62>>, 6, <<>>) IN
  IF Failed(a) THEN Fail ELSE IF a[1] # j THEN Fail
  ELSE LET name(k) == a[2][k][2]
           names == [k \in DOMAIN a[2] |-> name(k)]
           V(n) == {a[2][k][3] : k \in {k \in DOMAIN a[2] : name(k) = Cps(n)}} IN
  IF \E k \in DOMAIN a[2] : a[2][k][1] # <<>> THEN Fail
  ELSE IF names \notin {<<Cps("version")>>, <<Cps("version"), Cps("encoding")>>, <<Cps("version"), Cps("standalone")>>,
                         <<Cps("version"), Cps("encoding"), Cps("standalone")>>} THEN Fail
  ELSE IF V("version") \notin {{Cps("1.0")}, {Cps("1.1")}} \/ ~(V("standalone") \subseteq {Cps("yes"), Cps("no")}) THEN Fail
  ELSE <<j + 2, a[2][1][3], IF V("encoding") = {} THEN <<>> ELSE CHOOSE v \in V("encoding") : TRUE>>
Document(t) ==
  LET h == Declaration(t) IN
  IF Failed(h) THEN Fail
  ELSE LET i == Past(t, h[1])
           e == IF At(t, i) = 60 THEN Element(t, i, <<>>) ELSE Fail IN
  IF Failed(e) THEN Fail ELSE IF At(t, Past(t, e[1])) # Eof THEN Fail ELSE e
\* Whether there is more than one element where there can only be one.
MoreElements(t) ==
  LET h == Declaration(t)
      i == IF Failed(h) THEN 1 ELSE Past(t, h[1])
      e == IF At(t, i) = 60 THEN Element(t, i, <<>>) ELSE Fail IN
  IF Failed(h) \/ Failed(e) THEN FALSE ELSE At(t, Past(t, e[1])) = 60 /\ ~Failed(Element(t, Past(t, e[1]), <<>>))
=============================================================================
