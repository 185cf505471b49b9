------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON (RFC 8259), and the RDF/JSON that is written in it:                *)
(* { subject: { predicate: [ { type, value, lang or datatype } ] } }.      *)
(* A value is <<"o", members>>, <<"a", values>>, <<"s", text>> or, where   *)
(* it does not matter which, <<"x">>.  Verdicts are those of Lines.        *)
(***************************************************************************)
EXTENDS Lexis, Cps

White == {32, 9, 10, 13}
RECURSIVE Blank(_, _)
Blank(t, i) == IF At(t, i) \in White THEN Blank(t, i + 1) ELSE i

Hex4At(t, i) ==
  IF i + 3 > Len(t) THEN Fail
  ELSE IF \E k \in i..(i + 3) : ~L!IsHex(t[k]) THEN Fail ELSE <<i + 4, L!HexNumber(SubSeq(t, i, i + 3))>>
\* The character that the escape sequence at i is for; the halves of a pair come together.
JsonEscape(t, i) ==
  LET c == At(t, i + 1) IN
  CASE c \in {34, 92, 47} -> <<i + 2, c>>
    [] c = 98 -> <<i + 2, 8>> [] c = 102 -> <<i + 2, 12>> [] c = 110 -> <<i + 2, 10>>
    [] c = 114 -> <<i + 2, 13>> [] c = 116 -> <<i + 2, 9>>
    [] c = 117 ->
       LET h == Hex4At(t, i + 2) IN
       IF Failed(h) THEN Fail
       ELSE IF h[2] \notin 55296..57343 THEN h
       ELSE IF h[2] >= 56320 \/ ~Starts(t, h[1], <<92, 117>>) THEN Fail
       ELSE LET l == Hex4At(t, h[1] + 2) IN
         IF Failed(l) THEN Fail
         ELSE IF l[2] \notin 56320..57343 THEN Fail
         ELSE <<l[1], 65536 + (h[2] - 55296) * 1024 + (l[2] - 56320)>>
    [] OTHER -> Fail
RECURSIVE JsonString(_, _, _)
JsonString(t, i, v) ==
  LET c == At(t, i) IN
  IF c = 34 THEN <<i + 1, v>>
  ELSE IF c = Eof \/ c < 32 THEN Fail
  ELSE IF c = 92
  THEN LET e == JsonEscape(t, i) IN IF Failed(e) THEN Fail ELSE JsonString(t, e[1], Append(v, e[2]))
  ELSE JsonString(t, i + 1, Append(v, c))

RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF At(t, i) \in Digits THEN DigitsEnd(t, i + 1) ELSE i
JsonNumber(t, i) ==
  LET a == IF At(t, i) = 45 THEN i + 1 ELSE i
      b == DigitsEnd(t, a) IN
  IF b = a \/ (At(t, a) = 48 /\ b > a + 1) THEN Fail
  ELSE LET c == IF At(t, b) = 46 THEN DigitsEnd(t, b + 1) ELSE b IN
    IF At(t, b) = 46 /\ c = b + 1 THEN Fail
    ELSE IF At(t, c) \notin {69, 101} THEN <<c, <<"x">>>>
    ELSE LET d == IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1 IN
      IF DigitsEnd(t, d) = d THEN Fail ELSE <<DigitsEnd(t, d), <<"x">>>>
Words == {Cps("null"), Cps("true"), Cps("false")}

RECURSIVE JsonValue(_, _), JsonValues(_, _, _), JsonMembers(_, _, _)
JsonValue(t, i) ==
  LET c == At(t, i) IN
  IF c = 123
  THEN IF At(t, Blank(t, i + 1)) = 125 THEN <<Blank(t, i + 1) + 1, <<"o", <<>>>>>>
       ELSE JsonMembers(t, Blank(t, i + 1), <<>>)
  ELSE IF c = 91
  THEN IF At(t, Blank(t, i + 1)) = 93 THEN <<Blank(t, i + 1) + 1, <<"a", <<>>>>>>
       ELSE JsonValues(t, Blank(t, i + 1), <<>>)
  ELSE IF c = 34
  THEN LET s == JsonString(t, i + 1, <<>>) IN IF Failed(s) THEN Fail ELSE <<s[1], <<"s", s[2]>>>>
  ELSE IF \E w \in Words : Starts(t, i, w)
  THEN <<i + Len(CHOOSE w \in Words : Starts(t, i, w)), <<"x">>>>
  ELSE JsonNumber(t, i)
JsonValues(t, i, vs) ==
  LET v == JsonValue(t, i) IN
  IF Failed(v) THEN Fail
  ELSE LET j == Blank(t, v[1]) IN
    CASE At(t, j) = 44 -> JsonValues(t, Blank(t, j + 1), Append(vs, v[2]))
      [] At(t, j) = 93 -> <<j + 1, <<"a", Append(vs, v[2])>>>>
      [] OTHER -> Fail
JsonMembers(t, i, ms) ==
  LET k == IF At(t, i) = 34 THEN JsonString(t, i + 1, <<>>) ELSE Fail IN
  IF Failed(k) THEN Fail
  ELSE LET c == Blank(t, k[1]) IN
  IF At(t, c) # 58 THEN Fail
  ELSE LET v == JsonValue(t, Blank(t, c + 1)) IN
  IF Failed(v) THEN Fail
  ELSE LET j == Blank(t, v[1])  m == Append(ms, <<k[2], v[2]>>) IN
    CASE At(t, j) = 44 -> JsonMembers(t, Blank(t, j + 1), m)
      [] At(t, j) = 125 -> <<j + 1, <<"o", m>>>>
      [] OTHER -> Fail
Json(t) ==
  LET v == JsonValue(t, Blank(t, 1)) IN
  IF Failed(v) THEN Fail ELSE IF At(t, Blank(t, v[1])) # Eof THEN Fail ELSE v

(***************************************************************************)
(* RDF/JSON.                                                               *)
(***************************************************************************)
TypeKey == Cps("type")
ValueKey == Cps("value")
LangKey == Cps("lang")
DatatypeKey == Cps("datatype")
Keys == {TypeKey, ValueKey, LangKey, DatatypeKey}

Range(f) == {f[i] : i \in DOMAIN f}
Elements(s) == {s[i] : i \in DOMAIN s}
KeysOf(o) == {o[2][i][1] : i \in DOMAIN o[2]}
Doubled(o) == Cardinality(KeysOf(o)) < Len(o[2])
Get(o, k) == o[2][CHOOSE i \in DOMAIN o[2] : o[2][i][1] = k][2]
Has(o, k) == k \in KeysOf(o)
Text(o, k) == IF Has(o, k) THEN Get(o, k)[1] = "s" ELSE FALSE

IsBlank(k) == Len(k) >= 2 /\ k[1] = 95 /\ k[2] = 58
ValidLabel(k) == LET r == BlankLabel(k, 1, {}) IN IF Failed(r) THEN FALSE ELSE r[1] = Len(k) + 1
\* Verdicts on parts: "must", "open" or "refuse".
\* Parsers of URLs skip white space and control characters.
IriVerdict(k, known) ==
  IF k \in known THEN "must" ELSE IF HasScheme(SelectSeq(k, LAMBDA c : c > 32)) THEN "open" ELSE "refuse"
BlankVerdict(k) == IF ValidLabel(k) THEN "must" ELSE "refuse"
Worst(S) == IF "refuse" \in S THEN "refuse" ELSE IF "open" \in S THEN "open" ELSE "must"

ObjectVerdict(o, known) ==
  IF o[1] # "o" THEN "refuse"
  ELSE IF Doubled(o) THEN "open"
  ELSE IF ~Text(o, TypeKey) \/ ~Text(o, ValueKey) THEN "refuse"
  ELSE LET ty == Get(o, TypeKey)[2]  v == Get(o, ValueKey)[2]
           more == IF KeysOf(o) \subseteq Keys THEN "must" ELSE "open" IN
    CASE ty = Cps("uri") ->
           Worst({more, IriVerdict(v, known), IF Has(o, LangKey) \/ Has(o, DatatypeKey) THEN "open" ELSE "must"})
      [] ty = Cps("bnode") ->
           Worst({more, IF IsBlank(v) THEN BlankVerdict(v) ELSE "open",
                  IF Has(o, LangKey) \/ Has(o, DatatypeKey) THEN "open" ELSE "must"})
      [] ty = Cps("literal") ->
           Worst({more,
                  IF ~Has(o, LangKey) THEN "must" ELSE IF ~Text(o, LangKey) THEN "refuse"
                  ELSE IF PlainTag(Get(o, LangKey)[2]) THEN "must" ELSE "open",
                  IF ~Has(o, DatatypeKey) THEN "must" ELSE IF ~Text(o, DatatypeKey) THEN "refuse"
                  ELSE IriVerdict(Get(o, DatatypeKey)[2], known),
                  IF Has(o, LangKey) /\ Has(o, DatatypeKey) THEN "open" ELSE "must"})
      [] OTHER -> "refuse"
PredicatesVerdict(v, known) ==
  IF v[1] # "o" THEN "refuse"
  ELSE Worst({IF Doubled(v) THEN "open" ELSE "must"}
             \cup {Worst({IriVerdict(m[1], known),
                          IF m[2][1] # "a" THEN "refuse"
                          ELSE Worst({ObjectVerdict(o, known) : o \in Elements(m[2][2])})}) : m \in Elements(v[2])})
DocumentVerdict(v, known) ==
  IF v[1] # "o" THEN "refuse"
  ELSE Worst({IF Doubled(v) THEN "open" ELSE "must"}
             \cup {Worst({IF IsBlank(m[1]) THEN BlankVerdict(m[1]) ELSE IriVerdict(m[1], known),
                          PredicatesVerdict(m[2], known)}) : m \in Elements(v[2])})

Label(k) == SubSeq(k, 3, Len(k))
SubjectOf(k) == IF IsBlank(k) THEN <<"b", Label(k)>> ELSE <<"i", k>>
ObjectOf(o) ==
  LET ty == Get(o, TypeKey)[2]  v == Get(o, ValueKey)[2] IN
  CASE ty = Cps("uri") -> <<"i", v>>
    [] ty = Cps("bnode") -> <<"b", Label(v)>>
    [] OTHER -> <<"l", v, IF Has(o, DatatypeKey) THEN Get(o, DatatypeKey)[2] ELSE <<>>,
                  IF Has(o, LangKey) THEN Lowered(Get(o, LangKey)[2]) ELSE <<>>>>
NoName == <<"none">>
QuadsOf(v) ==
  UNION {UNION {{<<NoName, SubjectOf(m[1]), p[1], ObjectOf(o)>> : o \in Elements(p[2][2])}
                : p \in Elements(m[2][2])} : m \in Elements(v[2])}

ReadJson(t, known) ==
  LET v == Json(t) IN
  IF Failed(v) THEN <<"refuse">>
  ELSE LET d == DocumentVerdict(v[2], known) IN
    IF d = "must" THEN <<"must", QuadsOf(v[2])>> ELSE <<d>>
=============================================================================
