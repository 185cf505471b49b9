-------------------------------- MODULE Iri ---------------------------------
(***************************************************************************)
(* An IRI is its text, and what the library says of it is said of the text *)
(* alone: its components, the components it is edited by, whether it looks *)
(* like a namespace, how it splits into a namespace and a name and is made *)
(* from them.  The texts are in the canonical form that the WHATWG URL     *)
(* parser gives them; that parser is not specified here.                   *)
(***************************************************************************)
EXTENDS Names

Hash == 35
Query == 63
Slash == 47

SchemeEnd(t) == Find(t, {Colon})
\* The part before any fragment, and before any query.
NoFrag(t) == LET h == Find(t, {Hash}) IN IF h = 0 THEN t ELSE Upto(t, h - 1)
NoQuery(t) == LET u == NoFrag(t)  q == Find(u, {Query}) IN IF q = 0 THEN u ELSE Upto(u, q - 1)
HasFragment(t) == Hash \in Range(t)
Fragment(t) == From(t, Find(t, {Hash}) + 1)
HasQuery(t) == Query \in Range(NoFrag(t))
\* Where the path starts: after the authority when there is one, else after the scheme.
PathStart(t) ==
  LET u == NoQuery(t)  c == SchemeEnd(u) IN
  IF StartsWith(From(u, c + 1), <<Slash, Slash>>)
  THEN LET p == Find(From(u, c + 3), {Slash}) IN IF p = 0 THEN Len(u) + 1 ELSE c + 2 + p
  ELSE c + 1
Path(t) == From(NoQuery(t), PathStart(t))
Before(t) == Upto(t, PathStart(t) - 1)
After(t) == From(t, Len(NoQuery(t)) + 1)

WithFragment(t, f) == NoFrag(t) \o <<Hash>> \o Encode(f)
WithNoFragment(t) == NoFrag(t)
WithPath(t, p) == Before(t) \o Encode(p) \o After(t)

LooksLikeNamespace(t) ==
  \/ HasFragment(t) /\ Fragment(t) = <<>>
  \/ EndsIn(Path(t), Slash) /\ ~HasQuery(t)

None == <<"none">>
Some(x) == <<"some", x>>

Split(t) ==
  IF HasFragment(t)
  THEN IF Fragment(t) # <<>> /\ IsOk(Name(Fragment(t)))
       THEN Some(<<WithFragment(t, <<>>), Fragment(t)>>) ELSE None
  ELSE LET p == Path(t)  i == FindLast(p, {Slash}) IN
    IF HasQuery(t) \/ i = 0 \/ ~IsOk(Name(From(p, i + 1))) THEN None
    ELSE Some(<<WithPath(t, Upto(p, i)), From(p, i + 1)>>)

MakeName(t, n) ==
  IF HasFragment(t) THEN Some(WithFragment(t, n))
  ELSE IF EndsIn(Path(t), Slash) /\ ~HasQuery(t) THEN Some(WithPath(t, Path(t) \o n))
  ELSE None

\* Where a generated identifier is: on the authority of the base, /.well-known/genid/ and 32 digits.
WellKnown == <<47,46,119,101,108,108,45,107,110,111,119,110,47,103,101,110,105,100,47>>
IsGenid(base, t) ==
  LET p == Before(base) \o WellKnown IN
  /\ Len(t) = Len(p) + 32
  /\ StartsWith(t, p)
  /\ \A i \in (Len(p) + 1)..Len(t) : t[i] \in Digit \cup 97..102

Bracket(t) == <<60>> \o t \o <<62>>

\* A text with no scheme at its beginning, beside one pair of angle brackets around it, is no
\* absolute IRI (texts of visible characters only).
Inner(t) == IF Len(t) >= 2 /\ t[1] = 60 /\ EndsIn(t, 62) THEN SubSeq(t, 2, Len(t) - 1) ELSE t
Letter == 65..90 \cup 97..122
HasScheme(t) ==
  LET e == SchemeEnd(t) IN
  e > 1 /\ t[1] \in Letter /\ \A i \in 1..(e - 1) : t[i] \in Letter \cup Digit \cup {43, 45, 46}
Refused(t) == ~HasScheme(Inner(t))
\* These are their own canonical form: a scheme that is not among the special ones, and a rest
\* that the parser has nothing to do for.
OwnForm(t) ==
  LET u == Inner(t) IN
  /\ HasScheme(u) /\ \A i \in 1..Len(u) : u[i] \in 97..122 \cup Digit \cup {Colon, Slash, Hash, Query}
  /\ ~(\E i \in (SchemeEnd(u) + 1)..Len(u) : u[i] = Colon)

(***************************************************************************)
(* Results of the operations on the real code, see harness/iri.            *)
(***************************************************************************)
First(r) == IF r = None THEN None ELSE Some(r[2][1])
Second(r) == IF r = None THEN None ELSE Some(r[2][2])

IriWant(o) ==
  CASE o.op = "iri.parse" -> IF o.ok /\ ~Refused(o.t) THEN <<"ok", Inner(o.t)>> ELSE <<"err", "iri">>
    [] o.op = "iri.observe" ->
         << o.t, Bracket(o.t), o.t, LooksLikeNamespace(o.t), Split(o.t), First(Split(o.t)),
            Second(Split(o.t)), WithNoFragment(o.t), WithFragment(o.t, <<>>) >>
    [] o.op = "iri.fragment" -> << WithFragment(o.t, o.f), o.t >>
    [] o.op = "iri.path" -> << WithPath(o.t, o.f), o.t >>
    [] o.op = "iri.make" ->
         LET m == MakeName(o.t, o.f) IN
         << m, IF m = None THEN None ELSE Split(m[2]) >>
    [] o.op = "iri.trips" ->
         << [i \in 1..9 |-> o.t], TRUE, o.t, Bracket(o.t) >>
    [] o.op = "iri.cmp" -> << o.a = o.b, Order(o.a, o.b), Some(Order(o.a, o.b)), o.a = o.b >>
    [] o.op = "iri.genid" -> << "ok", o.n * o.threads, TRUE, "texts of the form of IsGenid", TRUE >>

IriConf(o) ==
  IF o.op = "iri.genid"
  THEN /\ o.res[1] = "ok"
       /\ o.res[2] = o.n * o.threads
       /\ o.res[3] /\ o.res[5]
       /\ \A i \in 1..Len(o.res[4]) : IsGenid(o.t, o.res[4][i])
  ELSE o.res = IriWant(o)
=============================================================================
