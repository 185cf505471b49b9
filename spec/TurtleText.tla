----------------------------- MODULE TurtleText -----------------------------
(***************************************************************************)
(* Turtle 1.1, without lists for subjects.  A list is a collection,        *)
(* <<"c", nodes>>; a node without a label has the label <<0, position>>,   *)
(* which is no text.                                                       *)
(***************************************************************************)
EXTENDS Lexis, Cps
R == INSTANCE Reference

XsdNs == Cps("http://www.w3.org/2001/XMLSchema#")
RdfType == Cps("http://www.w3.org/1999/02/22-rdf-syntax-ns#type")

NameLike(c) == c # Eof /\ (N!PnChars(c) \/ c = 58)
Word(t, i, w) == Starts(t, i, w) /\ ~NameLike(At(t, i + Len(w)))
\* A keyword of SPARQL, in upper or lower case.
Keyword(t, i, w) ==
  /\ i + Len(w) <= Len(t) /\ Lowered(SubSeq(t, i, i + Len(w) - 1)) = Lowered(w)
  /\ At(t, i + Len(w)) \in {32, 9, 10, 13, 60}

\* The prefix and the colon of a prefixed name: <<position behind the colon, prefix>>.
PnameNs(t, i) ==
  LET j == IF At(t, i) # Eof /\ N!PnCharsBase(At(t, i)) THEN RunEnd(t, i, {46}) ELSE i IN
  IF At(t, j) # 58 THEN Fail
  ELSE IF j > i /\ t[j - 1] = 46 THEN Fail ELSE <<j + 1, SubSeq(t, i, j - 1)>>
LocalEscapes == {95, 126, 46, 45, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 47, 63, 35, 64, 37}
\* ends are the position and the length of the name at the last character that it may end with.
RECURSIVE LocalRest(_, _, _, _)
LocalRest(t, i, v, ends) ==
  LET c == At(t, i) IN
  IF c = 37 /\ i + 2 <= Len(t) /\ L!IsHex(At(t, i + 1)) /\ L!IsHex(At(t, i + 2))
  THEN LET w == v \o SubSeq(t, i, i + 2) IN LocalRest(t, i + 3, w, <<i + 3, Len(w)>>)
  ELSE IF c = 92 /\ At(t, i + 1) \in LocalEscapes
  THEN LET w == Append(v, t[i + 1]) IN LocalRest(t, i + 2, w, <<i + 2, Len(w)>>)
  ELSE IF c # Eof /\ (IF v = <<>> THEN N!NameFirst(c) \/ c = 58 ELSE N!PnChars(c) \/ c = 58)
  THEN LET w == Append(v, c) IN LocalRest(t, i + 1, w, <<i + 1, Len(w)>>)
  ELSE IF c = 46 /\ v # <<>> THEN LocalRest(t, i + 1, Append(v, c), ends)
  ELSE <<ends[1], SubSeq(v, 1, ends[2])>>
\* env is a sequence of prefixes and what they are bound to; the last one counts.
PrefixedName(t, i, env) ==
  LET p == PnameNs(t, i) IN
  IF Failed(p) THEN Fail
  ELSE LET B == {k \in DOMAIN env : env[k][1] = p[2]} IN
    IF B = {} THEN Fail
    ELSE LET l == LocalRest(t, p[1], <<>>, <<p[1], 0>>) IN
      <<l[1], env[CHOOSE k \in B : \A m \in B : m <= k][2] \o l[2]>>
\* The base that references are resolved against is bound to BaseKey, which is no prefix.
BaseKey == <<0>>
Base(env) == {k \in DOMAIN env : env[k][1] = BaseKey}
IriOf(t, i, env) ==
  IF At(t, i) = 60
  THEN LET r == IriRef(t, i) IN
    IF Failed(r) THEN Fail
    ELSE IF HasScheme(r[2]) THEN r
    ELSE IF Base(env) = {} THEN Fail
    ELSE <<r[1], R!Resolve(env[CHOOSE k \in Base(env) : \A m \in Base(env) : m <= k][2], r[2])>>
  ELSE PrefixedName(t, i, env)

AnyString(t, i) ==
  IF At(t, i) \notin {34, 39} THEN Fail
  ELSE IF Starts(t, i, <<t[i], t[i], t[i]>>) THEN StringRest(t, i + 3, t[i], TRUE, <<>>)
  ELSE StringRest(t, i + 1, t[i], FALSE, <<>>)
Literal(t, i, env) ==
  LET r == AnyString(t, i) IN
  IF Failed(r) THEN Fail
  ELSE IF At(t, r[1]) = 64
  THEN LET g == LangTag(t, r[1]) IN IF Failed(g) THEN Fail ELSE <<g[1], <<"l", r[2], <<>>, Lowered(g[2])>>, {}>>
  ELSE IF Starts(t, r[1], <<94, 94>>)
  THEN LET d == IriOf(t, r[1] + 2, env) IN IF Failed(d) THEN Fail ELSE <<d[1], <<"l", r[2], d[2], <<>>>>, {}>>
  ELSE <<r[1], <<"l", r[2], <<>>, <<>>>>, {}>>

RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF At(t, i) \in Digits THEN DigitsEnd(t, i + 1) ELSE i
Typed(t, i, j, name) == <<j, <<"l", SubSeq(t, i, j - 1), XsdNs \o Cps(name), <<>>>>, {}>>
Number(t, i) ==
  LET a == IF At(t, i) \in {43, 45} THEN i + 1 ELSE i
      b == DigitsEnd(t, a)
      c == IF At(t, b) = 46 THEN DigitsEnd(t, b + 1) ELSE b
      \* The end of the digits, with a fraction if there is one.
      e == IF c > b + 1 THEN c ELSE b
      x(k) == IF At(t, k) \notin {69, 101} THEN k
              ELSE LET s == IF At(t, k + 1) \in {43, 45} THEN k + 2 ELSE k + 1 IN
                IF DigitsEnd(t, s) > s THEN DigitsEnd(t, s) ELSE k IN
  IF b = a /\ c <= b + 1 THEN Fail
  ELSE IF x(c) > c /\ (b > a \/ c > b + 1) THEN Typed(t, i, x(c), "double")
  ELSE IF x(e) > e THEN Typed(t, i, x(e), "double")
  ELSE IF e > b THEN Typed(t, i, e, "decimal")
  ELSE Typed(t, i, b, "integer")

RECURSIVE Object(_, _, _), Objects(_, _, _, _, _, _), PredicateObjects(_, _, _, _, _), ListRest(_, _, _, _, _)
\* <<position, node, statements>>
Object(t, i, env) ==
  LET c == At(t, i) IN
  CASE c = 91 ->
         LET j == Gap(t, i + 1)  n == <<"b", <<0, i>>>> IN
         IF At(t, j) = 93 THEN <<j + 1, n, {}>>
         ELSE LET r == PredicateObjects(t, j, env, n, {}) IN
           IF Failed(r) THEN Fail ELSE IF At(t, r[1]) # 93 THEN Fail ELSE <<r[1] + 1, n, r[2]>>
    [] c = 40 -> ListRest(t, Gap(t, i + 1), env, <<>>, {})
    [] c = 95 -> LET b == BlankLabel(t, i, {}) IN IF Failed(b) THEN Fail ELSE <<b[1], <<"b", b[2]>>, {}>>
    [] c \in {34, 39} -> Literal(t, i, env)
    [] c \in Digits \cup {43, 45, 46} -> Number(t, i)
    [] OTHER ->
         IF Word(t, i, Cps("true")) THEN Typed(t, i, i + 4, "boolean")
         ELSE IF Word(t, i, Cps("false")) THEN Typed(t, i, i + 5, "boolean")
         ELSE LET r == IriOf(t, i, env) IN IF Failed(r) THEN Fail ELSE <<r[1], <<"i", r[2]>>, {}>>
ListRest(t, i, env, ns, sts) ==
  IF At(t, i) = 41 THEN <<i + 1, <<"c", ns>>, sts>>
  ELSE LET o == IF At(t, i) = Eof THEN Fail ELSE Object(t, i, env) IN
    IF Failed(o) THEN Fail ELSE ListRest(t, Gap(t, o[1]), env, Append(ns, o[2]), sts \cup o[3])
\* <<position, statements>>, as are the next two; the position is that of what is not white space.
Objects(t, i, env, s, p, sts) ==
  LET o == IF At(t, i) = Eof THEN Fail ELSE Object(t, i, env) IN
  IF Failed(o) THEN Fail
  ELSE LET j == Gap(t, o[1])  r == sts \cup o[3] \cup {<<s, p, o[2]>>} IN
    IF At(t, j) = 44 THEN Objects(t, Gap(t, j + 1), env, s, p, r) ELSE <<j, r>>
RECURSIVE PastSemicolons(_, _)
PastSemicolons(t, i) == IF At(t, i) = 59 THEN PastSemicolons(t, Gap(t, i + 1)) ELSE i
PredicateObjects(t, i, env, s, sts) ==
  LET v == IF Word(t, i, <<97>>) THEN <<i + 1, RdfType>> ELSE IF At(t, i) = Eof THEN Fail ELSE IriOf(t, i, env) IN
  IF Failed(v) THEN Fail
  ELSE LET r == Objects(t, Gap(t, v[1]), env, s, v[2], sts) IN
  IF Failed(r) THEN Fail
  ELSE IF At(t, r[1]) # 59 THEN r
  ELSE LET k == PastSemicolons(t, r[1]) IN
    IF At(t, k) \in {46, 93} THEN <<k, r[2]>> ELSE PredicateObjects(t, k, env, s, r[2])

Subject(t, i, env) ==
  IF At(t, i) \in {40, 34, 39} \cup Digits THEN Fail ELSE Object(t, i, env)

RECURSIVE Document(_, _, _, _)
Document(t, i, env, sts) ==
  IF At(t, i) = Eof THEN <<"must", sts>>
  ELSE IF Keyword(t, i, Cps("@prefix")) \/ Keyword(t, i, Cps("PREFIX"))
  THEN LET at == t[i] = 64
           p == PnameNs(t, Gap(t, i + IF at THEN 7 ELSE 6)) IN
    IF Failed(p) THEN <<"refuse">>
    ELSE LET r == IF At(t, Gap(t, p[1])) = 60 THEN IriOf(t, Gap(t, p[1]), env) ELSE Fail IN
    IF Failed(r) THEN <<"refuse">>
    ELSE LET e == Gap(t, r[1]) IN
    IF at /\ At(t, e) # 46 THEN <<"refuse">>
    ELSE Document(t, IF at THEN Gap(t, e + 1) ELSE e, Append(env, <<p[2], r[2]>>), sts)
  ELSE IF Keyword(t, i, Cps("@base")) \/ Keyword(t, i, Cps("BASE"))
  THEN LET at == t[i] = 64
           j == Gap(t, i + IF at THEN 5 ELSE 4)
           r == IF At(t, j) = 60 THEN IriOf(t, j, env) ELSE Fail IN
    IF Failed(r) THEN <<"refuse">>
    ELSE LET e == Gap(t, r[1]) IN
    IF at /\ At(t, e) # 46 THEN <<"refuse">>
    ELSE Document(t, IF at THEN Gap(t, e + 1) ELSE e, Append(env, <<BaseKey, r[2]>>), sts)
  ELSE LET s == Subject(t, i, env) IN
    IF Failed(s) THEN <<"refuse">>
    ELSE LET j == Gap(t, s[1])
             r == IF t[i] = 91 /\ s[3] # {} /\ At(t, j) = 46 THEN <<j, s[3]>>
                  ELSE PredicateObjects(t, j, env, s[2], s[3]) IN
      IF Failed(r) THEN <<"refuse">>
      ELSE IF At(t, r[1]) # 46 THEN <<"refuse">>
      ELSE Document(t, Gap(t, r[1] + 1), env, sts \cup r[2])
ReadTurtle(t) == Document(t, Gap(t, 1), <<>>, {})
=============================================================================
