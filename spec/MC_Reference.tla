---------------------------- MODULE MC_Reference ----------------------------
(* Bases of every shape and the IRIs that begin with them, with others and   *)
(* with none: what is to be written with a base.                             *)
EXTENDS Reference, Cps, Emit
CONSTANTS Alphabet, N
VARIABLES stem, base, rest, o

Stems == {Cps("http://h/"), Cps("u:"), Cps("u://h"), Cps("u:/")}
\* Texts without segments of dots, of which a canonical IRI has none.
Plain(t) == RemoveDots(Components(t).path) = Components(t).path
Base == stem \o base
Stripped(t) == Recomposed([Components(t) EXCEPT !.fragment = <<>>])
NoFragment == Stripped(Base)
\* Texts that the parser of IRIs leaves as they are.
Canonical(t) == LET r == Components(t) IN Plain(t) /\ (r.authority # <<>> => \A i \in DOMAIN r.authority[1] : r.authority[1][i] \in 97..122)
Write(s, b, t) ==
  [op |-> "base", base |-> s \o b,
   iris |-> IF Canonical(s \o b) THEN SelectSeq(<<Stripped(s \o b) \o t, s \o b \o t, s \o t>>, Canonical) ELSE <<>>]
Init == stem \in Stems /\ base = <<>> /\ rest = <<>> /\ o = Write(stem, <<>>, <<>>)
Next ==
  /\ UNCHANGED stem
  /\ \E c \in Alphabet :
       \/ Len(base) < N /\ rest = <<>> /\ base' = Append(base, c) /\ UNCHANGED rest
       \/ Len(rest) < N /\ rest' = Append(rest, c) /\ UNCHANGED base
  /\ o' = Write(stem', base', rest')
View == <<stem, base, rest>>
Emitted == o'.iris # <<>> => EmitOp(o')

\* The parts of a text are all of it.
Whole == Recomposed(Components(Base)) = Base /\ Recomposed(Components(rest)) = rest
\* An IRI without segments of dots means itself, whatever the base is.
Absolute == Plain(Base \o rest) => Resolve(Cps("x://y/z?v#w"), Base \o rest) = Base \o rest
Same == Resolve(Base, <<>>) = NoFragment
\* Which references may be left without the base in front of them.
Hierarchical == Components(Base).authority # <<>> \/ (Components(Base).path # <<>> /\ Components(Base).path[1] = 47)
Segment == LET i == {i \in DOMAIN rest : rest[i] \in {47, 63, 35}} IN
           IF i = {} THEN rest ELSE SubSeq(rest, 1, (CHOOSE k \in i : \A j \in i : k <= j) - 1)
EndsPath == Len(Components(Base).path) > 0 /\ Components(Base).path[Len(Components(Base).path)] = 47
Shortened ==
  \/ rest = <<>> \/ rest[1] = 35
  \/ rest[1] = 63 /\ Components(Base).query = <<>>
  \/ /\ rest[1] \notin {47, 63, 35} /\ Hierarchical /\ EndsPath /\ Components(Base).query = <<>>
     /\ \A i \in DOMAIN Segment : Segment[i] # 58
Sound == Shortened /\ Plain(NoFragment \o rest) => Concatenates(Base, rest)

R(b, r, t) == Resolve(Cps(b), Cps(r)) = Cps(t)
Rfc == "http://a/b/c/d;p?q"
\* RFC 3986, 5.4.
ASSUME /\ R(Rfc, "g:h", "g:h") /\ R(Rfc, "g", "http://a/b/c/g") /\ R(Rfc, "./g", "http://a/b/c/g")
       /\ R(Rfc, "g/", "http://a/b/c/g/") /\ R(Rfc, "/g", "http://a/g") /\ R(Rfc, "//g", "http://g")
       /\ R(Rfc, "?y", "http://a/b/c/d;p?y") /\ R(Rfc, "g?y", "http://a/b/c/g?y") /\ R(Rfc, "#s", "http://a/b/c/d;p?q#s")
       /\ R(Rfc, "g#s", "http://a/b/c/g#s") /\ R(Rfc, "g?y#s", "http://a/b/c/g?y#s") /\ R(Rfc, ";x", "http://a/b/c/;x")
       /\ R(Rfc, "g;x", "http://a/b/c/g;x") /\ R(Rfc, "g;x?y#s", "http://a/b/c/g;x?y#s") /\ R(Rfc, "", "http://a/b/c/d;p?q")
       /\ R(Rfc, ".", "http://a/b/c/") /\ R(Rfc, "./", "http://a/b/c/") /\ R(Rfc, "..", "http://a/b/")
       /\ R(Rfc, "../", "http://a/b/") /\ R(Rfc, "../g", "http://a/b/g") /\ R(Rfc, "../..", "http://a/")
       /\ R(Rfc, "../../", "http://a/") /\ R(Rfc, "../../g", "http://a/g")
       /\ R(Rfc, "../../../g", "http://a/g") /\ R(Rfc, "../../../../g", "http://a/g")
       /\ R(Rfc, "/./g", "http://a/g") /\ R(Rfc, "/../g", "http://a/g") /\ R(Rfc, "g.", "http://a/b/c/g.")
       /\ R(Rfc, ".g", "http://a/b/c/.g") /\ R(Rfc, "g..", "http://a/b/c/g..") /\ R(Rfc, "..g", "http://a/b/c/..g")
       /\ R(Rfc, "./../g", "http://a/b/g") /\ R(Rfc, "./g/.", "http://a/b/c/g/") /\ R(Rfc, "g/./h", "http://a/b/c/g/h")
       /\ R(Rfc, "g/../h", "http://a/b/c/h") /\ R(Rfc, "g;x=1/./y", "http://a/b/c/g;x=1/y")
       /\ R(Rfc, "g;x=1/../y", "http://a/b/c/y") /\ R(Rfc, "g?y/./x", "http://a/b/c/g?y/./x")
       /\ R(Rfc, "g?y/../x", "http://a/b/c/g?y/../x") /\ R(Rfc, "g#s/./x", "http://a/b/c/g#s/./x")
       /\ R(Rfc, "g#s/../x", "http://a/b/c/g#s/../x") /\ R(Rfc, "http:g", "http:g")
=============================================================================
