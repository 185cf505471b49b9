------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* The grammar of rdftk_iri's names: Namespace (PNAME_NS: a PN_PREFIX and  *)
(* ':', or ':' alone), Name (a PN_LOCAL without ':' and without escapes)   *)
(* and LocalName (a Namespace and a Name); and the ways one is made from   *)
(* another.                                                                *)
(***************************************************************************)
EXTENDS Text

Colon == 58
Dot == 46

BaseRanges == << <<65, 90>>, <<97, 122>>, <<192, 214>>, <<216, 246>>, <<248, 767>>,
  <<880, 893>>, <<895, 8191>>, <<8204, 8205>>, <<8304, 8591>>, <<11264, 12271>>,
  <<12289, 55295>>, <<63744, 64975>>, <<65008, 65533>>, <<65536, 983039>> >>
Digit == 48..57
InRanges(c, R) == \E i \in 1..Len(R) : R[i][1] <= c /\ c <= R[i][2]

PnCharsBase(c) == InRanges(c, BaseRanges)
PnCharsU(c) == PnCharsBase(c) \/ c = 95
PnChars(c) == PnCharsU(c) \/ c = 45 \/ c \in Digit \/ c = 183
              \/ (768 <= c /\ c <= 879) \/ c \in {8255, 8256}
NameFirst(c) == PnCharsU(c) \/ c \in Digit
NameRest(c) == PnChars(c) \/ c = Dot

\* <<"ok", text>> or <<"err", kind>>
Ok(t) == <<"ok", t>>
Err(k) == <<"err", k>>

Name(t) ==
  IF t = <<>> THEN Err("empty")
  ELSE IF ~EndsIn(t, Dot) /\ NameFirst(t[1]) /\ \A i \in 2..Len(t) : NameRest(t[i])
  THEN Ok(t) ELSE Err("char")

ValidPrefix(p) ==
  p = <<>> \/ (~EndsIn(p, Dot) /\ PnCharsBase(p[1]) /\ \A i \in 2..Len(p) : NameRest(p[i]))
Namespace(t) ==
  IF t = <<>> THEN Err("empty")
  ELSE IF ~EndsIn(t, Colon) THEN Err("missing")
  ELSE LET p == Upto(t, Len(t) - 1) IN
    IF Colon \in Range(p) THEN Err("many") ELSE IF ValidPrefix(p) THEN Ok(t) ELSE Err("char")

\* The separator is optional in the argument of Namespace::new_named and new_unchecked.
Separated(t) == IF EndsIn(t, Colon) THEN t ELSE t \o <<Colon>>
Default == <<Colon>>

IsOk(r) == r[1] = "ok"
LocalName(t) ==
  IF t = <<>> THEN Err("empty")
  ELSE LET i == Find(t, {Colon}) IN
    IF i = 0 THEN Err("missing")
    ELSE LET ns == Namespace(Upto(t, i))  n == Name(From(t, i + 1)) IN
      IF ~IsOk(ns) THEN ns ELSE IF ~IsOk(n) THEN n ELSE <<"ok", <<ns[2], n[2]>>>>
Curie(ns, n) == <<91>> \o ns \o n \o <<93>>
LocalView(ns, n) == <<ns, n, ns \o n, Curie(ns, n), ns = Default>>
OrderPair(p, n, q, k) == IF p # q THEN Order(p, q) ELSE Order(n, k)

\* What the accepted code points are at each position that the harness sweeps.
Accepts(at, c) ==
  CASE at = "name1" -> IsOk(Name(<<c>>))
    [] at = "name2" -> IsOk(Name(<<97, c, 97>>))
    [] at = "name3" -> IsOk(Name(<<97, c>>))
    [] at = "ns1" -> IsOk(Namespace(<<c, Colon>>))
    [] at = "ns2" -> IsOk(Namespace(<<97, c, 97, Colon>>))
    [] at = "ns3" -> IsOk(Namespace(<<97, c, Colon>>))

(***************************************************************************)
(* Results of the operations on the real code, see harness/iri.            *)
(***************************************************************************)
Opt(t) == IF t = <<>> THEN <<"none">> ELSE <<"some", t>>
Tag(r) == IF IsOk(r) THEN r ELSE <<"err">>
NamesWant(o) ==
  CASE o.op = "name.ns" ->
         LET r == Namespace(o.t) IN
         << r, IsOk(r), r, Tag(r),
            IF ~IsOk(r) THEN r
            ELSE <<"ok", <<o.t, Opt(Upto(o.t, Len(o.t) - 1)), o.t = Default, o.t, o.t, o.t, o.t>>>> >>
    [] o.op = "name.named" -> << Namespace(Separated(o.t)), Separated(o.t) >>
    [] o.op = "name.name" ->
         LET r == Name(o.t) IN
         << r, IsOk(r), r, Tag(r), IF ~IsOk(r) THEN r ELSE <<"ok", <<o.t, o.t, o.t, o.t>>>> >>
    [] o.op = "name.local" ->
         LET r == LocalName(o.t) IN
         IF IsOk(r) THEN <<"ok", LocalView(r[2][1], r[2][2])>> ELSE r
    [] o.op = "name.compose" ->
         LET l == <<o.p, o.n>>  t == o.p \o o.n IN
         << [i \in 1..6 |-> l], TRUE, LocalView(o.p, o.n), t, t, <<"ok", l>>,
            <<Default, o.n>>, Default >>
    [] o.op = "name.cmp" ->
         << <<o.p = o.q, Order(o.p, o.q), o.p = o.q>>,
            <<o.n = o.k, Order(o.n, o.k), o.n = o.k>>,
            <<o.p = o.q /\ o.n = o.k, OrderPair(o.p, o.n, o.q, o.k), o.p = o.q /\ o.n = o.k>> >>

Surrogates == 55296..57343
NamesConf(o) ==
  IF o.op = "name.sweep"
  THEN \A c \in (o.lo..o.hi) \ Surrogates : Accepts(o.at, c) = InRanges(c, o.res)
  ELSE o.res = NamesWant(o)
=============================================================================
