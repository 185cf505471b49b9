------------------------------- MODULE Lines --------------------------------
(***************************************************************************)
(* N-Triples and N-Quads.  A document is                                   *)
(*   <<"must", quads>>   one that has to be read, as these quads;          *)
(*   <<"may", quads>>    one that the grammar does not admit (line ends    *)
(*                       and comments inside of a statement, two           *)
(*                       statements on a line, space inside of a literal), *)
(*                       which may be refused or read as these quads;      *)
(*   <<"refuse">>        one that has to be refused;                       *)
(*   <<"open">>          one that the specification says nothing of: it    *)
(*                       has an IRI that is not in its canonical form, a   *)
(*                       language tag that may not be well-formed, or a    *)
(*                       label with ':'.                                   *)
(* A quad is <<name, subject, predicate, object>>.                         *)
(***************************************************************************)
EXTENDS Lexis

\* A term: <<position behind it, node, in the strict grammar, open, the IRIs in it>>.
IriTerm(t, i) ==
  LET r == IriRef(t, i) IN IF Failed(r) THEN Fail ELSE <<r[1], <<"i", r[2]>>, TRUE, FALSE, {r[2]}>>
BlankTerm(t, i) ==
  LET r == BlankLabel(t, i, {58}) IN
  IF Failed(r) THEN Fail
  ELSE <<r[1], <<"b", r[2]>>, TRUE, \E k \in 1..Len(r[2]) : r[2][k] = 58, {}>>
LiteralTerm(t, i) ==
  LET r == QuotedString(t, i) IN
  IF Failed(r) THEN Fail
  ELSE LET j == Gap(t, r[1]) IN
    IF At(t, j) = 64
    THEN LET g == LangTag(t, j) IN
      IF Failed(g) THEN Fail ELSE <<g[1], <<"l", r[2], <<>>, Lowered(g[2])>>, j = r[1], ~PlainTag(g[2]), {}>>
    ELSE IF Starts(t, j, <<94, 94>>)
    THEN LET k == Gap(t, j + 2)  d == IriRef(t, k) IN
      IF Failed(d) THEN Fail
      ELSE <<d[1], <<"l", r[2], d[2], <<>>>>, j = r[1] /\ k = j + 2, FALSE, {d[2]}>>
    ELSE <<r[1], <<"l", r[2], <<>>, <<>>>>, TRUE, FALSE, {}>>
Term(t, i) ==
  CASE At(t, i) = 60 -> IriTerm(t, i) [] At(t, i) = 95 -> BlankTerm(t, i)
    [] At(t, i) = 34 -> LiteralTerm(t, i) [] OTHER -> Fail
KindOf(r) == r[2][1]

\* What has been read: <<quads, strict, open, IRIs>>.
Read0 == <<{}, TRUE, FALSE, {}>>
Flat(g) == ~g[2] /\ ~g[3]
RECURSIVE Rest(_, _, _, _)
\* The statements from position i on, which is not white space; q is whether there may be graph labels.
Rest(t, i, q, r) ==
  IF At(t, i) = Eof THEN <<"ok", r>>
  ELSE LET s == Term(t, i) IN
  IF Failed(s) THEN <<"refuse">> ELSE IF KindOf(s) = "l" THEN <<"refuse">>
  ELSE LET g1 == Skip(t, s[1])  p == Term(t, g1[1]) IN
  IF Failed(p) THEN <<"refuse">> ELSE IF KindOf(p) # "i" THEN <<"refuse">>
  ELSE LET g2 == Skip(t, p[1])  o == Term(t, g2[1]) IN
  IF Failed(o) THEN <<"refuse">>
  ELSE LET g3 == Skip(t, o[1])
           named == q /\ At(t, g3[1]) # 46
           n == IF named THEN Term(t, g3[1]) ELSE <<g3[1], <<"none">>, TRUE, FALSE, {}>> IN
  IF Failed(n) THEN <<"refuse">> ELSE IF KindOf(n) = "l" THEN <<"refuse">>
  ELSE LET g4 == Skip(t, n[1]) IN
  IF At(t, g4[1]) # 46 THEN <<"refuse">>
  ELSE LET g5 == Skip(t, g4[1] + 1) IN
    Rest(t, g5[1], q,
         << r[1] \cup {<<n[2], s[2], p[2][2], o[2]>>},
            r[2] /\ s[3] /\ p[3] /\ o[3] /\ n[3] /\ Flat(g1) /\ Flat(g2) /\ Flat(g3) /\ Flat(g4)
              /\ (g5[2] \/ At(t, g5[1]) = Eof),
            r[3] \/ s[4] \/ o[4] \/ n[4],
            r[4] \cup s[5] \cup p[5] \cup o[5] \cup n[5] >>)

\* known are IRIs in their canonical form.
Read(t, q, known) ==
  LET d == Rest(t, Gap(t, 1), q, Read0) IN
  IF d[1] = "refuse" THEN d
  ELSE LET r == d[2] IN
    IF \E v \in r[4] : ~HasScheme(v) THEN <<"refuse">>
    ELSE IF r[3] \/ ~(r[4] \subseteq known) THEN <<"open">>
    ELSE IF r[2] THEN <<"must", r[1]>> ELSE <<"may", r[1]>>
=============================================================================
