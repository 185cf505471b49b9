----------------------------- MODULE Reference ------------------------------
(***************************************************************************)
(* References to IRIs, resolved against a base as RFC 3986, 5.2 has it.    *)
(* Components of a text are <<>> when they are absent and <<text>> else.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

LOCAL Cut(t, i) == SubSeq(t, 1, i)
LOCAL Tail_(t, i) == SubSeq(t, i + 1, Len(t))
\* The first position of one of the characters C, or behind the end.
LOCAL At(t, C) == IF \E i \in DOMAIN t : t[i] \in C THEN CHOOSE i \in DOMAIN t : t[i] \in C /\ \A k \in 1..(i - 1) : t[k] \notin C
                  ELSE Len(t) + 1
LOCAL Letters == 65..90 \cup 97..122
LOCAL HasPrefix(t, p) == Len(p) <= Len(t) /\ Cut(t, Len(p)) = p

\* [scheme, authority, path, query, fragment]
Components(t) ==
  LET c == At(t, {58, 47, 63, 35})
      absolute == c > 1 /\ c <= Len(t) /\ t[c] = 58 /\ t[1] \in Letters
                  /\ \A i \in 1..(c - 1) : t[i] \in Letters \cup 48..57 \cup {43, 45, 46}
      u == IF absolute THEN Tail_(t, c) ELSE t
      h == At(u, {35})
      v == Cut(u, h - 1)
      q == At(v, {63})
      w == Cut(v, q - 1)
      p == IF HasPrefix(w, <<47, 47>>) THEN 2 + At(Tail_(w, 2), {47}) ELSE 1 IN
  [ scheme    |-> IF absolute THEN <<Cut(t, c - 1)>> ELSE <<>>,
    authority |-> IF HasPrefix(w, <<47, 47>>) THEN <<SubSeq(w, 3, p - 1)>> ELSE <<>>,
    path      |-> Tail_(w, p - 1),
    query     |-> IF q > Len(v) THEN <<>> ELSE <<Tail_(v, q)>>,
    fragment  |-> IF h > Len(u) THEN <<>> ELSE <<Tail_(u, h)>> ]
LOCAL Part(x, before, after) == IF x = <<>> THEN <<>> ELSE before \o x[1] \o after
Recomposed(r) ==
  Part(r.scheme, <<>>, <<58>>) \o Part(r.authority, <<47, 47>>, <<>>) \o r.path
  \o Part(r.query, <<63>>, <<>>) \o Part(r.fragment, <<35>>, <<>>)

\* All but the last segment of a path, and the text up to its last slash.
LOCAL LastSlash(t) ==
  LET S == {i \in DOMAIN t : t[i] = 47} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A k \in S : k <= i
RECURSIVE Dots(_, _)
LOCAL Dots(in, out) ==
  LET up == LET i == LastSlash(out) IN IF i = 0 THEN <<>> ELSE Cut(out, i - 1) IN
  IF in = <<>> THEN out
  ELSE IF HasPrefix(in, <<46, 46, 47>>) THEN Dots(Tail_(in, 3), out)
  ELSE IF HasPrefix(in, <<46, 47>>) THEN Dots(Tail_(in, 2), out)
  ELSE IF HasPrefix(in, <<47, 46, 47>>) THEN Dots(Tail_(in, 2), out)
  ELSE IF in = <<47, 46>> THEN Dots(<<47>>, out)
  ELSE IF HasPrefix(in, <<47, 46, 46, 47>>) THEN Dots(Tail_(in, 3), up)
  ELSE IF in = <<47, 46, 46>> THEN Dots(<<47>>, up)
  ELSE IF in \in {<<46>>, <<46, 46>>} THEN out
  ELSE LET e == 1 + At(Tail_(in, 1), {47}) IN Dots(Tail_(in, e - 1), out \o Cut(in, e - 1))
RemoveDots(path) == Dots(path, <<>>)

Merged(b, path) ==
  IF b.authority # <<>> /\ b.path = <<>> THEN <<47>> \o path ELSE Cut(b.path, LastSlash(b.path)) \o path

Resolve(base, reference) ==
  LET b == Components(base)
      r == Components(reference) IN
  Recomposed(
    IF r.scheme # <<>> THEN [r EXCEPT !.path = RemoveDots(@)]
    ELSE IF r.authority # <<>> THEN [r EXCEPT !.scheme = b.scheme, !.path = RemoveDots(@)]
    ELSE [ scheme    |-> b.scheme,
           authority |-> b.authority,
           path      |-> IF r.path = <<>> THEN b.path
                         ELSE IF r.path[1] = 47 THEN RemoveDots(r.path) ELSE RemoveDots(Merged(b, r.path)),
           query     |-> IF r.path = <<>> /\ r.query = <<>> THEN b.query ELSE r.query,
           fragment  |-> r.fragment ])

\* Whether a reference says what it leaves out: the IRI that it resolves to is the text of the base,
\* without its fragment, and the reference behind it.
Concatenates(base, reference) ==
  Resolve(base, reference) = Recomposed([Components(base) EXCEPT !.fragment = <<>>]) \o reference
=============================================================================
