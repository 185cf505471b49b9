------------------------------ MODULE MC_Chars ------------------------------
(***************************************************************************)
(* Every character in every place of a document in N-Triples or N-Quads    *)
(* where characters are told apart: labels, literals, escapes, IRIs,       *)
(* language tags and gaps.  All of ASCII and Latin, and both sides of      *)
(* every boundary of the classes of the grammar.                           *)
(***************************************************************************)
EXTENDS Lines, Cps, Emit
CONSTANT More
VARIABLES d, o

Edges == {192, 214, 216, 246, 248, 767, 768, 879, 880, 893, 895, 8191, 8192, 8204, 8205, 8255, 8256, 8304, 8591, 8592, 11264, 12271, 12272, 12289,
          55295, 57344, 63744, 64975, 64976, 65007, 65008, 65533, 65534, 65536, 917504, 983039, 983040, 1114111, 173, 8203, 8206, 8232, 8233, 65279}
Chars1 == (0..(IF More THEN 1023 ELSE 255))
          \cup {c \in UNION {{e - 1, e, e + 1} : e \in Edges} : c \in 0..1114111 /\ c \notin 55296..57343}

Places ==
  << <<"_:", " <urn:p> _:a .">>, <<"_:a", " <urn:p> _:a .">>, <<"_:a <urn:p> _:b", "c .">>, <<"_:a <urn:p> _:b.", ".">>, <<"_:a <urn:p> _:b.", "c .">>,
     <<"_:a <urn:p> \"", "\" .">>, <<"_:a <urn:p> \"x", "x\"@en .">>, <<"_:a <urn:p> \"\\", "\" .">>, <<"_:a <urn:p> \"\\u004", "\" .">>,
     <<"_:a <urn:p> \"\\u", "041\" .">>, <<"_:a <urn:p> \"\\U0000004", "\" .">>, <<"_:a <urn:p> \"\\U0", "000041\" .">>,
     <<"_:a <urn:p> <http://a/", "> .">>, <<"_:a <urn:p> <", "ttp://a/> .">>, <<"_:a <urn:p> <http", "://a/> .">>, <<"_:a <urn:p> \"x\"^^<urn:", "> .">>,
     <<"_:a <urn:p> <http://a/\\u004", "> .">>, <<"_:a <urn:p> <http://a/\\", "0041> .">>,
     <<"_:a <urn:p> \"x\"@", " .">>, <<"_:a <urn:p> \"x\"@e", " .">>, <<"_:a <urn:p> \"x\"@en-U", " .">>, <<"_:a <urn:p> \"x\"", "@en .">>, <<"_:a <urn:p> \"x\"^", "<urn:p> .">>,
     <<"", "_:a <urn:p> _:a .">>, <<"_:a", "<urn:p> _:a .">>, <<"_:a ", "<urn:p> _:a .">>, <<"_:a <urn:p>", "_:a .">>, <<"_:a <urn:p> _:a ", ".">>, <<"_:a <urn:p> _:a ", "">>, <<"_:a <urn:p> _:a .", "">>,
     <<"_:a <urn:p> _:a .", "_:b <urn:p> _:b .">>, <<"_:a <urn:p> _:a . #", "_:b <urn:p> _:b .">>, <<"_:a <urn:p> _:a <urn:", "> .">>, <<"_:a <urn:p> _:a _:", " .">>,
     <<"_:a <urn:p> _:a ", "urn:p> .">> >>
Letters == {48, 57, 65, 90, 97, 98, 112, 122}
Known == {Cps("urn:p"), Cps("http://a/")} \cup {Cps("http://a/") \o <<c>> : c \in Letters} \cup {Cps("urn:") \o <<c>> : c \in Letters}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})

Init == d = <<>> /\ o = [op |-> "reset"]
Next ==
  \/ d = <<>> /\ d' = <<"known">> /\ o' = [op |-> "known", known |-> Listed(Known)]
  \/ d = <<>> /\ d' \in {<<i, f>> : i \in DOMAIN Places, f \in {"nt", "nq"}} /\ o' = o
  \/ /\ Len(d) = 2
     /\ \E c \in Chars1 : d' = <<d[1], d[2], c>>
                          /\ o' = [op |-> "io.read", fmt |-> d[2], t |-> Cps(Places[d[1]][1]) \o <<c>> \o Cps(Places[d[1]][2])]
Emitted == o' = o \/ EmitOp(o')

\* N-Quads is N-Triples with more: what one reads of a text without graph labels, the other reads as well.
Wider ==
  Len(d) = 3 => LET a == Read(o.t, FALSE, Known)  b == Read(o.t, TRUE, Known) IN
                  a[1] # "refuse" => b = a
=============================================================================
