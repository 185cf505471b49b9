-------------------------------- MODULE Text --------------------------------
(* Text is a sequence of Unicode code points.                                *)
EXTENDS Naturals, Sequences

\* The first (last) position in t of an element of S, or 0.
Find(t, S) ==
  LET P == {i \in 1..Len(t) : t[i] \in S}
  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
FindLast(t, S) ==
  LET P == {i \in 1..Len(t) : t[i] \in S}
  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i >= j

Upto(t, n) == SubSeq(t, 1, n)
From(t, n) == SubSeq(t, n, Len(t))
Last(t) == t[Len(t)]
EndsIn(t, c) == Len(t) > 0 /\ Last(t) = c
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

\* The order of text: that of the first position that differs, then that of the length.
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LessAt(a, b, i + 1)
Less(a, b) == LessAt(a, b, 1)
Order(a, b) == IF a = b THEN "eq" ELSE IF Less(a, b) THEN "lt" ELSE "gt"

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Range(f) == {f[i] : i \in DOMAIN f}

\* The UTF-8 bytes of a code point, and their percent-encoding.
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Percent(b) == <<37, HexDigit(b \div 16), HexDigit(b % 16)>>
PercentEncode(c) == IF c < 128 THEN <<c>> ELSE Concat([i \in 1..Len(Utf8(c)) |-> Percent(Utf8(c)[i])])
Encode(t) == Concat([i \in 1..Len(t) |-> PercentEncode(t[i])])
=============================================================================
