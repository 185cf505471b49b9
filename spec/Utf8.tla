-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8: the text that bytes stand for, <<"ok", code points>>, or <<"bad">>. *)
EXTENDS Naturals, Sequences
LOCAL Tail1(b) == b \in 128..191
\* How many bytes follow the first one, which is b; 9 if it is none.
More(b) == CASE b < 128 -> 0 [] b \in 194..223 -> 1 [] b \in 224..239 -> 2 [] b \in 240..244 -> 3 [] OTHER -> 9
\* No overlong forms, no surrogates and nothing beyond the last code point.
Second(a, b) ==
  CASE a = 224 -> b \in 160..191 [] a = 237 -> b \in 128..159 [] a = 240 -> b \in 144..191 [] a = 244 -> b \in 128..143
    [] OTHER -> Tail1(b)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(s, i, v) ==
  IF i > Len(s) THEN <<"ok", v>>
  ELSE LET a == s[i]  n == More(a) IN
    IF n = 9 \/ i + n > Len(s) THEN <<"bad">>
    ELSE IF n = 0 THEN DecodeFrom(s, i + 1, Append(v, a))
    ELSE IF ~Second(a, s[i + 1]) \/ \E k \in 2..n : ~Tail1(s[i + k]) THEN <<"bad">>
    ELSE LET first == IF n = 1 THEN a - 192 ELSE IF n = 2 THEN a - 224 ELSE a - 240
             c1 == first * 64 + (s[i + 1] - 128)
             c2 == IF n < 2 THEN c1 ELSE c1 * 64 + (s[i + 2] - 128)
             c3 == IF n < 3 THEN c2 ELSE c2 * 64 + (s[i + 3] - 128) IN
      DecodeFrom(s, i + n + 1, Append(v, c3))
Decode(s) == DecodeFrom(s, 1, <<>>)
Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
=============================================================================
