------------------------------ MODULE MC_Nodes ------------------------------
(* The order of nodes is a total order (up to that of data types), and the   *)
(* printed form of a node without shorthands tells nodes apart.              *)
EXTENDS Nodes, Emit
VARIABLES s, o

A == <<104,116,116,112,58,47,47,97,47>>
AB == A \o <<98>>
En == <<101,110>>
Fr == <<102,114>>
L(t, d, g) == <<"l", t, d, g>>
Atoms == {<<"b", <<97>>>>, <<"b", <<97, 98>>>>, <<"b", <<90>>>>, <<"i", A>>, <<"i", AB>>,
          L(<<97>>, <<>>, <<>>), L(<<98>>, <<>>, <<>>), L(<<>>, <<>>, <<>>), L(<<97>>, <<>>, En), L(<<97>>, <<>>, Fr),
          L(<<98>>, <<>>, En), L(<<97>>, Xsd("string"), <<>>), L(<<97>>, AB, <<>>), L(<<98>>, AB, <<>>),
          L(<<49>>, Xsd("long"), <<>>)}
St == {<<a, p, b>> : a \in {<<"b", <<97>>>>, <<"i", A>>}, p \in {A, AB}, b \in {<<"i", A>>, L(<<97>>, <<>>, <<>>)}}
Lists == {<<"c", v>> : v \in {<<>>} \cup {<<x>> : x \in {<<"i", A>>, L(<<97>>, <<>>, En)}}
                             \cup {<<<<"i", A>>, <<"i", AB>>>>, <<<<"i", A>>, <<"b", <<97>>>>>>}}
StNodes == {<<"s", x>> : x \in {x \in St : x[2] = A}}
DeepNodes == {<<"s", <<<<"s", x>>, A, <<"c", <<<<"s", x>>>>>>>>>> : x \in {<<<<"i", A>>, A, <<"i", AB>>>>}}
Nodes == Atoms \cup Lists \cup StNodes \cup DeepNodes
Subjects == {n \in Nodes : IsSubject(n)}
Triples(S) == {<<x, y, z>> : x, y, z \in S}

Init == s = <<>> /\ o = [op |-> "reset"]
Ops ==
  {[op |-> "node.cmp_object", v |-> v] : v \in {w \in Triples(Nodes) : w[1] # w[2]}}
  \cup {[op |-> "node.cmp_subject", v |-> v] : v \in Triples(Subjects)}
  \cup {[op |-> "node.cmp_literal", v |-> v] : v \in Triples({n \in Atoms : n[1] = "l"})}
  \cup {[op |-> "node.cmp_statement", v |-> v] : v \in Triples(St)}
  \cup {[op |-> "node.display", n |-> n] : n \in Nodes}
  \cup {[op |-> "node.display_statement", s |-> n[2]] : n \in StNodes \cup DeepNodes}
  \cup {[op |-> "node.display_name", n |-> n] : n \in {n \in Atoms : n[1] \in {"b", "i"}}}
  \cup {[op |-> "node.collection", c |-> n] : n \in Lists \cup {<<"c", <<n>>>> : n \in Nodes}}
  \cup {[op |-> "node.rdf_type", n |-> n, p |-> AB] : n \in Subjects}
  \cup {[op |-> "node.variants", n |-> n, other |-> m, p |-> A, q |-> AB] : n, m \in Nodes}
  \cup {[op |-> "node.ways", n |-> n] : n \in Nodes} \cup {[op |-> "node.features", n |-> n] : n \in Nodes}
  \cup {[op |-> "node.equal", a |-> n, b |-> m] : n, m \in Nodes}
Next == s = <<>> /\ \E x \in Ops : o' = x /\ s' = x
View == s
Emitted == EmitOp(o')

Total ==
  s = <<>> => /\ \A a, b \in Nodes : (OrderNodes(a, b) = "eq") = (a = b) /\ OrderNodes(a, b) = Flip(OrderNodes(b, a))
              /\ \A a, b, c \in Nodes :
                   (OrderNodes(a, b) = "lt" /\ OrderNodes(b, c) = "lt") => OrderNodes(a, c) = "lt"
Distinct ==
  s = <<>> => \A a, b \in {n \in Nodes : n[1] = "l"} : Shown(a, TRUE) = Shown(b, TRUE) => a = b
=============================================================================
