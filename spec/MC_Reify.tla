------------------------------ MODULE MC_Reify ------------------------------
(* Statements and collections over a few nodes, nested twice: what describing *)
(* them says decodes to what they were, whichever of them it is.              *)
EXTENDS Simplify, Emit
VARIABLES s, o

I1 == <<"i", "http://a/">>
B1 == <<"b", "n">>
L1 == <<"l", "x", "", "en">>
P == "http://p/"
Atoms == {I1, B1, L1}
Colls(S) == {<<"c", <<>>>>} \cup {<<"c", <<x>>>> : x \in S} \cup {<<"c", <<x, y>>>> : x, y \in S}
Flat == {<<a, P, b>> : a \in {I1, B1}, b \in Atoms \cup Colls({I1, B1})}
Deep == {<<<<"s", x>>, P, b>> : x \in Flat, b \in {I1, L1}}
        \cup {<<a, P, <<"s", x>>>> : a \in {I1, B1}, x \in Flat}
        \cup {<<I1, P, <<"c", <<I1, <<"s", x>>>>>>>> : x \in Flat}
        \cup {<<<<"s", x>>, P, <<"s", y>>>> : x \in {<<I1, P, L1>>, <<B1, P, B1>>}, y \in Flat}
More == {<<<<"s", x>>, P, <<"s", x>>>> : x \in Deep} \cup {<<I1, P, <<"c", <<<<"s", x>>, B1, <<"s", x>>>>>>>> : x \in Deep}
Statements == Flat \cup Deep \cup More
Collections == {<<"c", v>> : v \in [1..3 -> Atoms \cup {<<"c", <<>>>>}]} \cup Colls({<<"s", x>> : x \in Flat} \cup Colls({I1}))

\* One way of describing a node: the labels are those of where it is.
Label(path) == <<"b", "gen" \o ToString(path)>>
RECURSIVE Describe(_, _), DescribeList(_, _, _)
IsComplex(n) == n[1] = "s" \/ n[1] = "c"
DescribeList(ns, path, i) ==
  IF i > Len(ns) THEN <<Nil, <<>>>>
  ELSE LET me == Label(Append(path, i))
           first == Describe(ns[i], path \o <<i, 0>>)
           rest == DescribeList(ns, path, i + 1) IN
    << me, <<<<me, RdfType, <<"i", RdfList>>>>, <<me, RdfFirst, first[1]>>, <<me, RdfRest, rest[1]>>>> \o first[2] \o rest[2] >>
Describe(n, path) ==
  CASE n[1] = "s" ->
         LET me == Label(path)  a == Describe(n[2][1], Append(path, 1))  b == Describe(n[2][3], Append(path, 3)) IN
         << me, <<<<me, RdfType, <<"i", RdfStatement>>>>, <<me, RdfSubject, a[1]>>,
                  <<me, RdfPredicate, <<"i", n[2][2]>>>>, <<me, RdfObject, b[1]>>>> \o a[2] \o b[2] >>
    [] n[1] = "c" -> DescribeList(n[2], path, 1)
    [] OTHER -> <<n, <<>>>>

Init == s = <<>> /\ o = [op |-> "reset"]
Ops == {[op |-> "node.reify", s |-> x] : x \in Statements}
       \cup {[op |-> "node.reify_list", c |-> x] : x \in Collections}
Next == s = <<>> /\ \E x \in Ops : o' = x /\ s' = IF x.op = "node.reify" THEN <<"s", x.s>> ELSE x.c
View == s
Emitted == EmitOp(o')

Right(n) == LET d == Describe(n, <<>>) IN ReifyConf(n, d[1], d[2])
\* Describing and decoding are inverse.
Inverse == s = <<>> \/ Right(s)
\* A description that lacks a statement, or has one twice, is wrong.
NoLess ==
  s = <<>> \/ LET d == Describe(s, <<>>) IN
    \A i \in DOMAIN d[2] :
      LET other == [j \in 1..(Len(d[2]) - 1) |-> d[2][IF j < i THEN j ELSE j + 1]] IN
        ~ReifyConf(s, d[1], other) /\ ~ReifyConf(s, d[1], Append(d[2], d[2][i]))
=============================================================================
