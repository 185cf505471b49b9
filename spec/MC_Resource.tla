---------------------------- MODULE MC_Resource -----------------------------
(* Resources of up to two properties, each added in every way that there is. *)
(* One way of writing containers as statements decodes to what is asked for. *)
EXTENDS Resource, Emit
VARIABLES s, o

A == <<"i", "http://a/">>
B == <<"b", "n">>
P == "http://p/"
L1 == <<"l", "x", "", "">>
L2 == <<"l", "y", "", "en">>
L3 == <<"l", "1", "http://t/", "">>
Leaf(n) == <<n, <<<<P, "property", L1>>>>>>
Nested == <<B, <<<<P, "property_sequence", <<L1, L2>>>>, <<P, "resource", Leaf(A)>>>>>>
LiteralLists == {<<>>, <<L1>>, <<L1, L2, L1>>}
ResourceLists == {<<>>, <<Leaf(B)>>, <<Leaf(A), <<B, <<>>>>, Nested>>}
Both(S) == S \cup {"predicate." \o h : h \in S}
Properties ==
  {<<P, h, L2>> : h \in Both({"property"}) \cup {"value_of", "literal", "literal_str", "literal_language_str", "literal_language_str_str"}}
  \cup {<<P, "literal_typed_str", L3>>}
  \cup {<<P, h, v>> : h \in Both({"property_alternatives", "property_bag", "property_sequence"}), v \in LiteralLists}
  \cup {<<P, h, v, "http://k/">> : h \in Both({"property_container"}), v \in LiteralLists}
  \cup {<<P, h, <<B, <<>>>>>> : h \in Both({"resource_blank_named"})}
  \cup {<<P, h, <<A, <<>>>>>> : h \in Both({"resource_named"}) \cup {"instance_of"}}
  \cup {<<P, h, v>> : h \in Both({"resource"}), v \in {Leaf(A), Nested}}
  \cup {<<P, h, v>> : h \in Both({"resource_alternatives", "resource_bag", "resource_sequence"}), v \in ResourceLists}
  \cup {<<P, h, v, "http://k/">> : h \in Both({"resource_container"}), v \in ResourceLists}
Few == {<<"http://q/", "property", L1>>, <<P, "property_bag", <<L1>>>>, <<P, "property_bag", <<L1>>>>, <<RdfType, "resource_named", <<A, <<>>>>>>}
Resources == {<<n, <<>>>> : n \in {A, B}} \cup {<<n, <<e>>>> : n \in {A, B}, e \in Properties}
             \cup {<<A, <<e, f>>>> : e \in Properties, f \in Few} \cup {<<A, <<e, e>>>> : e \in Properties}

\* Containers by number.
RECURSIVE Write(_, _)
Write(xs, k) ==
  IF xs = <<>> THEN <<>>
  ELSE LET x == Head(xs) IN
    IF x[3][1] # "box" THEN <<x>> \o Write(Tail(xs), k)
    ELSE LET n == <<"b", "gen" \o ToString(k)>> IN
      <<<<x[1], x[2], n>>, <<n, RdfType, <<"i", x[3][2]>>>>>>
      \o [i \in 1..Len(x[3][3]) |-> <<n, Member(i), x[3][3][i]>>] \o Write(Tail(xs), k + 1)

Init == s = <<>> /\ o = [op |-> "reset"]
Ops == {[op |-> "res.flatten", r |-> r] : r \in Resources} \cup {[op |-> "res.anonymous", p |-> P]}
Next == s = <<>> /\ \E x \in Ops : o' = x /\ s' = IF x.op = "res.flatten" THEN x.r ELSE <<A, <<>>>>
View == s
Emitted == EmitOp(o')
Inverse == s = <<>> \/ FlatConf(s, Write(Flat(s), 1))
NoLess ==
  s = <<>> \/ LET w == Write(Flat(s), 1) IN
    \A i \in DOMAIN w :
      LET other == [j \in 1..(Len(w) - 1) |-> w[IF j < i THEN j ELSE j + 1]] IN
        ~FlatConf(s, other) /\ ~FlatConf(s, Append(w, w[i]))
=============================================================================
