------------------------------- MODULE MC_Io --------------------------------
(***************************************************************************)
(* Graphs to write: every set of up to Most statements over nodes of every *)
(* kind, and every way of connecting a few nodes by edges that all look    *)
(* alike (trees, sharing, chains and cycles of blank nodes), or in a chain *)
(* by predicates of three namespaces.  The specification of what is        *)
(* written has to accept the statements of a graph and nothing less or     *)
(* more (Exact).                                                           *)
(***************************************************************************)
EXTENDS Simplify, Emit
CONSTANTS Most, Edges, Loops, Links
VARIABLES g, o

I(s) == <<"i", s>>
B(s) == <<"b", s>>
Lit(s, t, l) == <<"l", s, t, l>>
Xsd(n) == "http://www.w3.org/2001/XMLSchema#" \o n
Coll(v) == <<"c", v>>
Nested(x) == <<"s", x>>
P == "http://q/x"
Q == "http://xmlns.com/foaf/0.1/name"
X1 == <<I("http://a/"), P, Lit("x", "", "en")>>
X2 == <<B("n"), P, I("http://m/n.m")>>
Subjects1 == {I("http://a/"), I("http://m/a"), B("n"), B("m"), Nested(X1)}
Objects1 == {I("http://a/"), I("http://b/x#y"), B("n"), B("m"), Lit("x", "", ""), Lit("", "", "en-GB"), Lit("true", Xsd("boolean"), ""), Lit("1.5", Xsd("decimal"), ""),
             Lit("x", Xsd("string"), ""), Lit("http://a/", Xsd("anyURI"), ""), Lit("x", "http://b/x#t", ""),
             Coll(<<>>), Coll(<<I("http://a/")>>), Coll(<<B("n"), Lit("x", "", "")>>), Coll(<<Coll(<<>>), Nested(X2)>>), Nested(X1), Nested(X2)}
Predicates1 == {P, Q, RdfType}
Wide == {x \in Subjects1 \X Predicates1 \X Objects1 :
           /\ x[1][1] = "s" => x[2] # RdfType
           /\ x[2] = RdfType => x[3][1] \in {"i", "b"}
           /\ x[2] = Q => x[3][1] \in {"l", "b", "c"}}
Dots == {B("a"), B("b"), B("c")}
Shape(S, T) == {<<a, P, b>> : a \in S, b \in T}
\* A chain of blank nodes by predicates of different namespaces.
Chain(ps) == {<<x[1], p, x[2]>> : x \in {<<I("http://a/"), B("a")>>, <<B("a"), B("b")>>, <<B("b"), B("c")>>, <<B("c"), I("http://b/")>>}, p \in ps}

Init == g = [sts |-> {}, of |-> "start"] /\ o = [op |-> "reset"]
Grow(of, universe, most) ==
  /\ g.of \in {"start", of} /\ Cardinality(g.sts) < most
  /\ \E x \in universe \ g.sts : g' = [sts |-> g.sts \cup {x}, of |-> of]
  /\ o' = [op |-> "io.graph", of |-> of, sts |-> g'.sts]
Next ==
  \/ Grow("wide", Wide, Most)
  \/ Grow("edges", Shape(Dots \cup {I("http://a/")}, Dots \cup {I("http://b/")}), Edges)
  \/ Grow("loops", Shape(Dots, Dots), Loops)
  \/ Grow("chain", Chain({P, "http://p/x", Q}), Links)
\* Graphs that have been found are not told again.
View == g
Emitted == EmitOp(o')

Known == UNION {BlanksOf(x) : x \in g.sts}
Normal == {NormOf(x) : x \in g.sts}
FlatOnly == \A x \in g.sts : Simple(x)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Accepts(S) == DOMAIN Decoded(Listed(S), Known) = Normal /\ NoMore(Listed(S), Known, {})
Exact ==
  FlatOnly =>
    /\ Accepts(g.sts)
    /\ \A x \in g.sts : ~Accepts(g.sts \ {x})
    /\ \A x \in {<<I("http://a/"), Q, B("new")>>, <<B("new"), RdfType, I(RdfList)>>, <<B("new"), P, B("new")>>} : ~Accepts(g.sts \cup {x})
=============================================================================
