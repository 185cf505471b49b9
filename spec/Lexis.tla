------------------------------- MODULE Lexis --------------------------------
(***************************************************************************)
(* The terminals that the textual syntaxes of RDF share: IRI references,   *)
(* blank node labels, quoted strings with their escapes and language tags. *)
(* Each is a function of a text and the position that it starts at; the    *)
(* value is the position behind it and what it means, or Fail.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
N == INSTANCE Names
L == INSTANCE Literals

Fail == <<0>>
Failed(r) == r[1] = 0
\* No code point; what is behind the end of a text.
Eof == 1114112
At(t, i) == IF i <= Len(t) THEN t[i] ELSE Eof
Starts(t, i, p) == i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
Alpha(c) == c \in 65..90 \/ c \in 97..122
Digits == 48..57
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lowered(t) == [i \in 1..Len(t) |-> Lower(t[i])]

Scalar(v) == v <= 1114111 /\ v \notin 55296..57343
\* \uXXXX and \UXXXXXXXX
Uchar(t, i) ==
  LET n == IF At(t, i + 1) = 117 THEN 4 ELSE IF At(t, i + 1) = 85 THEN 8 ELSE 0
      d == SubSeq(t, i + 2, i + 1 + n) IN
  IF n = 0 \/ i + 1 + n > Len(t) THEN Fail
  ELSE IF \E k \in 1..n : ~L!IsHex(d[k]) THEN Fail
  ELSE IF n = 8 /\ (d[1] # 48 \/ d[2] # 48) THEN Fail
  ELSE LET v == L!HexNumber(IF n = 8 THEN SubSeq(d, 3, 8) ELSE d) IN
    IF Scalar(v) THEN <<i + 2 + n, v>> ELSE Fail
\* \t and its like
Echar(t, i) ==
  LET c == At(t, i + 1) IN
  CASE c = 116 -> <<i + 2, 9>> [] c = 98 -> <<i + 2, 8>> [] c = 110 -> <<i + 2, 10>> [] c = 114 -> <<i + 2, 13>>
    [] c = 102 -> <<i + 2, 12>> [] c \in {34, 39, 92} -> <<i + 2, c>> [] OTHER -> Fail

NotInIri == (0..32) \cup {60, 62, 34, 123, 125, 124, 94, 96, 92}
RECURSIVE IriRest(_, _, _)
IriRest(t, i, v) ==
  LET c == At(t, i) IN
  IF c = 62 THEN <<i + 1, v>>
  ELSE IF c = 92 THEN LET u == Uchar(t, i) IN IF Failed(u) THEN Fail ELSE IriRest(t, u[1], Append(v, u[2]))
  ELSE IF c = Eof \/ c \in NotInIri THEN Fail
  ELSE IriRest(t, i + 1, Append(v, c))
IriRef(t, i) == IF At(t, i) = 60 THEN IriRest(t, i + 1, <<>>) ELSE Fail
SchemeChar(c) == Alpha(c) \/ c \in Digits \/ c \in {43, 45, 46}
HasScheme(v) ==
  \E i \in 2..Len(v) : v[i] = 58 /\ Alpha(v[1]) /\ \A j \in 1..(i - 1) : SchemeChar(v[j])

\* The end of the run from i of characters that may be in a name; it does not end in a dot.
RECURSIVE RunEnd(_, _, _), NoDots(_, _)
RunEnd(t, i, more) == IF At(t, i) # Eof /\ (N!PnChars(t[i]) \/ t[i] \in more) THEN RunEnd(t, i + 1, more) ELSE i
NoDots(t, i) == IF t[i - 1] = 46 THEN NoDots(t, i - 1) ELSE i
\* N-Triples 1.1 has ':' in labels, Turtle has not: colon is {58} or {}.
BlankLabel(t, i, colon) ==
  LET c == At(t, i + 2) IN
  IF At(t, i) # 95 \/ At(t, i + 1) # 58 \/ c = Eof THEN Fail
  ELSE IF ~(N!NameFirst(c) \/ c \in colon) THEN Fail
  ELSE LET j == NoDots(t, RunEnd(t, i + 3, {46} \cup colon)) IN <<j, SubSeq(t, i + 2, j - 1)>>

\* A string between the quotes q; long is whether there are three of them.
RECURSIVE StringRest(_, _, _, _, _)
StringRest(t, i, q, long, v) ==
  LET c == At(t, i) IN
  IF IF long THEN Starts(t, i, <<q, q, q>>) ELSE c = q
  THEN <<IF long THEN i + 3 ELSE i + 1, v>>
  ELSE IF c = Eof \/ (~long /\ c \in {10, 13}) THEN Fail
  ELSE IF c = 92
  THEN LET e == Echar(t, i)  u == IF Failed(e) THEN Uchar(t, i) ELSE e IN
    IF Failed(u) THEN Fail ELSE StringRest(t, u[1], q, long, Append(v, u[2]))
  ELSE StringRest(t, i + 1, q, long, Append(v, c))
QuotedString(t, i) == IF At(t, i) = 34 THEN StringRest(t, i + 1, 34, FALSE, <<>>) ELSE Fail

RECURSIVE AlphaEnd(_, _), AlnumEnd(_, _), SubtagsEnd(_, _)
AlphaEnd(t, i) == IF Alpha(At(t, i)) THEN AlphaEnd(t, i + 1) ELSE i
AlnumEnd(t, i) == IF Alpha(At(t, i)) \/ At(t, i) \in Digits THEN AlnumEnd(t, i + 1) ELSE i
SubtagsEnd(t, i) ==
  IF At(t, i) = 45 /\ AlnumEnd(t, i + 1) > i + 1 THEN SubtagsEnd(t, AlnumEnd(t, i + 1)) ELSE i
LangTag(t, i) ==
  IF At(t, i) # 64 \/ ~Alpha(At(t, i + 1)) THEN Fail
  ELSE LET j == SubtagsEnd(t, AlphaEnd(t, i + 1)) IN <<j, SubSeq(t, i + 1, j - 1)>>
\* Language tags that are well-formed (RFC 5646): language, extended languages, script, region, variants, extensions and
\* private use, or nothing but the last; the irregular ones of old are not decided here.
RECURSIVE SubtagsFrom(_, _, _)
SubtagsFrom(v, i, part) ==
  IF i > Len(v) THEN <<part>>
  ELSE IF v[i] = 45 THEN <<part>> \o SubtagsFrom(v, i + 1, <<>>) ELSE SubtagsFrom(v, i + 1, Append(part, v[i]))
Alnum(s, n) == Len(s) \in n /\ \A i \in 1..Len(s) : Alpha(s[i]) \/ s[i] \in Digits
AllLetters(s, n) == Len(s) \in n /\ \A i \in 1..Len(s) : Alpha(s[i])
IsSubtag(s, class) ==
  CASE class = "language" -> AllLetters(s, 2..8)
    [] class = "extlang" -> AllLetters(s, {3})
    [] class = "script" -> AllLetters(s, {4})
    [] class = "region" -> AllLetters(s, {2}) \/ (Len(s) = 3 /\ \A i \in 1..3 : s[i] \in Digits)
    [] class = "variant" -> Alnum(s, 5..8) \/ (Alnum(s, {4}) /\ s[1] \in Digits)
    [] class = "singleton" -> Alnum(s, {1}) /\ s # <<120>>
    [] class = "x" -> s = <<120>>
    [] class = "extension" -> Alnum(s, 2..8)
    [] class = "private" -> Alnum(s, 1..8)
\* Behind the subtags of a class from position i on, n of them at the most.
RECURSIVE TagWhile(_, _, _, _)
TagWhile(p, i, n, class) ==
  IF n > 0 /\ i <= Len(p) THEN IF IsSubtag(p[i], class) THEN TagWhile(p, i + 1, n - 1, class) ELSE i ELSE i
PrivateUse(p, i) == i < Len(p) /\ IsSubtag(p[i], "x") /\ TagWhile(p, i + 1, Len(p), "private") = Len(p) + 1
RECURSIVE Extensions(_, _)
Extensions(p, i) ==
  IF i < Len(p) /\ IsSubtag(p[i], "singleton") /\ IsSubtag(p[i + 1], "extension")
  THEN Extensions(p, TagWhile(p, i + 1, Len(p), "extension")) ELSE i
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
PlainTag(v) ==
  LET p == SubtagsFrom(Lowered(v), 1, <<>>) IN
  \/ PrivateUse(p, 1)
  \/ /\ IsSubtag(p[1], "language")
     /\ LET e == TagWhile(p, 2, IF Len(p[1]) < 4 THEN 3 ELSE 0, "extlang")
            r == TagWhile(p, TagWhile(p, e, 1, "script"), 1, "region")
            a == TagWhile(p, r, Len(p), "variant")
            x == Extensions(p, a) IN
        /\ x = Len(p) + 1 \/ PrivateUse(p, x)
        /\ Distinct(SubSeq(p, r, a - 1))
        /\ Distinct(SelectSeq(SubSeq(p, a, x - 1), LAMBDA q : Len(q) = 1))

RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF At(t, i) \in {10, 13, Eof} THEN i ELSE LineEnd(t, i + 1)
\* White space and comments: the position behind them, whether there was a line end, and whether a comment.
RECURSIVE SkipFrom(_, _, _, _)
SkipFrom(t, i, line, comment) ==
  LET c == At(t, i) IN
  IF c \in {32, 9} THEN SkipFrom(t, i + 1, line, comment)
  ELSE IF c \in {10, 13} THEN SkipFrom(t, i + 1, TRUE, comment)
  ELSE IF c = 35 THEN SkipFrom(t, LineEnd(t, i), line, TRUE)
  ELSE <<i, line, comment>>
Skip(t, i) == SkipFrom(t, i, FALSE, FALSE)
Gap(t, i) == Skip(t, i)[1]
=============================================================================
