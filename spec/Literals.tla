------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* Literals: a text with a data type, a language, or neither; <<"l", text, *)
(* data type or <<>>, language or <<>>>>, in code points.  Their lexical   *)
(* form is the text with what may not stand between quotes escaped.        *)
(***************************************************************************)
EXTENDS Iri

XsdNs == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,49,47,88,77,76,83,99,104,101,109,97,35>>
RdfNs == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,49,57,57,57,47,48,50,47,50,50,45,114,100,102,45,115,121,110,116,97,120,45,110,115,35>>
\* The data types that are known by name, as sequences of code points.
TypeNames == [
  anyURI |-> <<97,110,121,85,82,73>>,
  base64Binary |-> <<98,97,115,101,54,52,66,105,110,97,114,121>>,
  boolean |-> <<98,111,111,108,101,97,110>>,
  date |-> <<100,97,116,101>>,
  dateTime |-> <<100,97,116,101,84,105,109,101>>,
  decimal |-> <<100,101,99,105,109,97,108>>,
  double |-> <<100,111,117,98,108,101>>,
  duration |-> <<100,117,114,97,116,105,111,110>>,
  float |-> <<102,108,111,97,116>>,
  hexBinary |-> <<104,101,120,66,105,110,97,114,121>>,
  QName |-> <<81,78,97,109,101>>,
  string |-> <<115,116,114,105,110,103>>,
  time |-> <<116,105,109,101>>,
  long |-> <<108,111,110,103>>,
  int |-> <<105,110,116>>,
  short |-> <<115,104,111,114,116>>,
  byte |-> <<98,121,116,101>>,
  unsignedLong |-> <<117,110,115,105,103,110,101,100,76,111,110,103>>,
  unsignedInt |-> <<117,110,115,105,103,110,101,100,73,110,116>>,
  unsignedShort |-> <<117,110,115,105,103,110,101,100,83,104,111,114,116>>,
  unsignedByte |-> <<117,110,115,105,103,110,101,100,66,121,116,101>>,
  language |-> <<108,97,110,103,117,97,103,101>>,
  Name |-> <<78,97,109,101>>]
XmlLiteral == RdfNs \o <<88,77,76,76,105,116,101,114,97,108>>
Xsd(t) == XsdNs \o TypeNames[t]
Known == {Xsd(t) : t \in DOMAIN TypeNames} \cup {XmlLiteral}
XsdPrefix == <<120,115,100,58>>
RdfPrefix == <<114,100,102,58>>
TypeShown(dt) ==
  IF dt = XmlLiteral THEN RdfPrefix \o From(dt, Len(RdfNs) + 1)
  ELSE IF dt \in Known THEN XsdPrefix \o From(dt, Len(XsdNs) + 1) ELSE dt

(***************************************************************************)
(* Escapes.                                                                *)
(***************************************************************************)
Backslash == 92
Quote == 34
Hex4(c) == [i \in 1..4 |-> HexDigit((c \div (16 ^ (4 - i))) % 16)]
Control(c) == c < 32 \/ (127 <= c /\ c <= 159)
EscapeOne(c) ==
  CASE c \in {Quote, Backslash} -> <<Backslash, c>>
    [] c = 10 -> <<Backslash, 110>>
    [] c = 13 -> <<Backslash, 114>>
    [] c = 9 -> <<Backslash, 116>>
    [] Control(c) -> <<Backslash, 117>> \o Hex4(c)
    [] OTHER -> <<c>>
Escape(t) == Concat([i \in 1..Len(t) |-> EscapeOne(t[i])])

HexValue(c) ==
  IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 16
IsHex(c) == HexValue(c) < 16
RECURSIVE HexNumber(_)
HexNumber(t) == IF t = <<>> THEN 0 ELSE 16 * HexNumber(Upto(t, Len(t) - 1)) + HexValue(Last(t))
RECURSIVE Unescape(_)
Unescape(t) ==
  IF t = <<>> THEN <<>>
  ELSE IF t[1] # Backslash THEN <<t[1]>> \o Unescape(Tail(t))
  ELSE IF t[2] = 117 THEN <<HexNumber(SubSeq(t, 3, 6))>> \o Unescape(From(t, 7))
  ELSE <<CASE t[2] = 110 -> 10 [] t[2] = 114 -> 13 [] t[2] = 116 -> 9 [] OTHER -> t[2]>> \o Unescape(From(t, 3))

(***************************************************************************)
(* Printing.  The plain form is that of Turtle, with its shorthands; the   *)
(* alternate form has none.                                                *)
(***************************************************************************)
Bare == {Xsd(t) : t \in {"boolean", "long", "int", "short", "byte", "unsignedLong", "unsignedInt",
                          "unsignedShort", "unsignedByte", "float", "double", "decimal"}}
Quoted(l) ==
  <<Quote>> \o Escape(l[2]) \o <<Quote>>
  \o (IF l[3] # <<>> THEN <<94, 94>> \o Bracket(l[3]) ELSE IF l[4] # <<>> THEN <<64>> \o l[4] ELSE <<>>)
LiteralText(l, alternate) ==
  IF alternate THEN Quoted(l)
  ELSE IF l[3] = Xsd("anyURI") THEN Bracket(Escape(l[2]))
  ELSE IF l[3] \in Bare THEN Escape(l[2])
  ELSE Quoted(l)

(***************************************************************************)
(* Binary data.                                                            *)
(***************************************************************************)
HexOf(v) == Concat([i \in 1..Len(v) |-> <<HexDigit(v[i] \div 16), HexDigit(v[i] % 16)>>])
Digit64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
Value64(c) ==
  IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
  ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 64
RECURSIVE Base64Of(_)
Base64Of(v) ==
  IF v = <<>> THEN <<>>
  ELSE LET at(i) == IF i <= Len(v) THEN v[i] ELSE 0
           digits == <<Digit64(at(1) \div 4), Digit64((at(1) % 4) * 16 + at(2) \div 16),
                       Digit64((at(2) % 16) * 4 + at(3) \div 64), Digit64(at(3) % 64)>> IN
    IF Len(v) = 1 THEN Upto(digits, 2) \o <<61, 61>>
    ELSE IF Len(v) = 2 THEN Upto(digits, 3) \o <<61>>
    ELSE digits \o Base64Of(From(v, 4))
FromHex(t) ==
  IF Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : IsHex(t[i])
  THEN Some([i \in 1..(Len(t) \div 2) |-> 16 * HexValue(t[2 * i - 1]) + HexValue(t[2 * i])]) ELSE None
\* The bytes that a text of base 64 digits, without its padding, has the digits of.
Bytes64(t) ==
  LET d(i) == Value64(t[i])
      byte(k) == LET q == ((k - 1) \div 3) * 4 IN
        CASE (k - 1) % 3 = 0 -> d(q + 1) * 4 + d(q + 2) \div 16
          [] (k - 1) % 3 = 1 -> (d(q + 2) % 16) * 16 + d(q + 3) \div 4
          [] OTHER -> (d(q + 3) % 4) * 64 + d(q + 4)
  IN [k \in 1..((Len(t) * 3) \div 4) |-> byte(k)]
Unpadded(t) ==
  IF EndsIn(t, 61) THEN LET u == Upto(t, Len(t) - 1) IN IF EndsIn(u, 61) THEN Upto(u, Len(u) - 1) ELSE u ELSE t
FromBase64(t) ==
  LET u == Unpadded(t) IN
  IF Len(t) % 4 = 0 /\ (\A i \in 1..Len(u) : Value64(u[i]) < 64) /\ Base64Of(Bytes64(u)) = t
  THEN Some(Bytes64(u)) ELSE None

(***************************************************************************)
(* Results of the operations on the real code, see harness/core.           *)
(***************************************************************************)
Lit(t, dt, lang) == <<"l", t, dt, lang>>
TypeOf(ty) == IF ty = "chrono" THEN Xsd("duration") ELSE Xsd(ty)
English == <<101, 110>>
LiteralWant(o) ==
  CASE o.op = "lit.text" ->
         LET dt == IF o.how \in {"type", "type_iri"} THEN o.dt
                   ELSE IF o.how \in {"string", "str"} THEN Xsd("string") ELSE <<>>
             l == Lit(o.t, dt, IF o.how = "language" THEN English ELSE <<>>) IN
         << Escape(o.t), o.t, LiteralText(l, FALSE), LiteralText(l, TRUE), l, <<l[3] # <<>>, l[4] # <<>>>> >>
    [] o.op = "lit.types" -> << o.dt, TypeShown(o.dt), o.dt \in Known, TRUE >>
    [] o.op = "lit.typed" -> << Lit(o.t, TypeOf(o.ty), <<>>), Escape(o.t), TRUE, o.t = o.other, TRUE >>
    [] o.op = "lit.bytes" ->
         LET t == IF o.how = "hex" THEN HexOf(o.v) ELSE Base64Of(o.v) IN
         << Lit(t, Xsd(IF o.how = "hex" THEN "hexBinary" ELSE "base64Binary"), <<>>), t, Some(o.v) >>
    [] o.op = "lit.decode" ->
         IF o.dt = Xsd("hexBinary") THEN FromHex(Escape(o.t))
         ELSE IF o.dt = Xsd("base64Binary") THEN FromBase64(Escape(o.t)) ELSE None
    [] o.op = "lit.to_iri" -> IF o.l[3] = Xsd("anyURI") /\ o.ok THEN Some(o.l[2]) ELSE None

LiteralConf(o) ==
  LET w == LiteralWant(o)  r == o.res IN
  CASE o.op = "lit.text" ->
         /\ \A i \in 1..6 : r[i] = w[i]
         \* A literal of another type is no string; whether one with a language is, is left open.
         /\ r[7] = (w[5][3] \in {<<>>, Xsd("string")}) \/ w[5][4] # <<>>
    [] o.op = "lit.types" ->
         /\ r[1] = w[1] /\ r[2] = w[2] /\ r[3] = w[3] /\ r[4] = w[4]
    [] o.op = "lit.typed" ->
         /\ r[1] = w[1] /\ r[2] = w[2] /\ r[3] = w[3] /\ r[4] = w[4] /\ r[6] = w[5]
         /\ r[5][2] = FALSE
         /\ IF o.ty = "string" THEN r[5][1] ELSE ~r[5][1] /\ ~r[5][3]
    [] OTHER -> r = w
=============================================================================
