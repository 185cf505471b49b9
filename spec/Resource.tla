------------------------------ MODULE Resource ------------------------------
(***************************************************************************)
(* A resource is a subject and a sequence of properties; it turns into     *)
(* statements.  A value that is a container is a blank node that has the   *)
(* type of the container and the members rdf:_1, rdf:_2 and so on; which   *)
(* blank node that is, is left open.  The statements of the resources that *)
(* are values are among those of the resource.                             *)
(*                                                                         *)
(* A resource is <<subject, properties>> and a property is                 *)
(* <<predicate, how it was added, value>>, see harness/core, with the type *)
(* of the container where the caller chooses one.                          *)
(***************************************************************************)
EXTENDS Graph, TLC

RdfType == "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
Rdf == "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
Member(i) == Rdf \o "_" \o ToString(i)

\* Both builders have the same operations.
Short(how) ==
  LET P == {"property", "property_alternatives", "property_bag", "property_sequence", "property_container",
            "resource_blank_named", "resource_named", "resource", "resource_alternatives", "resource_bag",
            "resource_sequence", "resource_container"} IN
  IF \E p \in P : how = "predicate." \o p THEN CHOOSE p \in P : how = "predicate." \o p ELSE how
KindOf(e) ==
  LET h == Short(e[2]) IN
  CASE h \in {"property_alternatives", "resource_alternatives"} -> Rdf \o "Alt"
    [] h \in {"property_bag", "resource_bag"} -> Rdf \o "Bag"
    [] h \in {"property_sequence", "resource_sequence"} -> Rdf \o "Seq"
    [] OTHER -> e[4]
LiteralContainers == {"property_alternatives", "property_bag", "property_sequence", "property_container"}
ResourceContainers == {"resource_alternatives", "resource_bag", "resource_sequence", "resource_container"}
Firsts(rs) == [i \in DOMAIN rs |-> rs[i][1]]

\* The object that a property has, a container being <<"box", type, members>>.
ObjectFor(e) ==
  LET h == Short(e[2])  v == e[3] IN
  CASE h \in LiteralContainers -> <<"box", KindOf(e), v>>
    [] h \in ResourceContainers -> <<"box", KindOf(e), Firsts(v)>>
    [] h \in {"property", "value_of", "literal"} -> v
    [] h = "literal_str" -> <<"l", v[2], "", "">>
    [] h = "literal_typed_str" -> <<"l", v[2], v[3], "">>
    [] h \in {"literal_language_str", "literal_language_str_str"} -> <<"l", v[2], "", v[4]>>
    [] OTHER -> v[1]
\* The resources among the values of a property.
Inner(e) ==
  LET h == Short(e[2]) IN
  IF h \in ResourceContainers THEN e[3] ELSE IF h = "resource" THEN <<e[3]>> ELSE <<>>
PredicateOf(e) == IF e[2] = "instance_of" THEN RdfType ELSE e[1]

RECURSIVE Flat(_), FlatAll(_)
FlatAll(rs) == IF rs = <<>> THEN <<>> ELSE Flat(Head(rs)) \o FlatAll(Tail(rs))
RECURSIVE FlatProperties(_, _)
FlatProperties(n, es) ==
  IF es = <<>> THEN <<>>
  ELSE <<<<n, PredicateOf(Head(es)), ObjectFor(Head(es))>>>> \o FlatAll(Inner(Head(es))) \o FlatProperties(n, Tail(es))
Flat(r) == FlatProperties(r[1], r[2])

RECURSIVE Labels(_)
\* The blank nodes of a resource that are its own.
LabelOf(n) == IF n[1] = "b" THEN {n} ELSE {}
Labels(r) == LabelOf(r[1]) \cup UNION {LabelOf(x[1]) \cup (IF x[3][1] = "box" THEN UNION {LabelOf(x[3][3][i]) : i \in DOMAIN x[3][3]}
                                                              ELSE LabelOf(x[3])) : x \in Range(Flat(r))}

(***************************************************************************)
(* Decoding.                                                               *)
(***************************************************************************)
Boxes(out, known) == {out[i][3] : i \in DOMAIN out} \cap {n \in {out[i][1] : i \in DOMAIN out} : n[1] = "b" /\ n \notin known}
Said(out, n) == SelectSeq(out, LAMBDA x : x[1] = n)
IsBox(out, n) ==
  LET s == Said(out, n) IN
  /\ Cardinality({i \in DOMAIN s : s[i][2] = RdfType}) = 1
  /\ \A i \in DOMAIN s : s[i][2] = RdfType => s[i][3][1] = "i"
  /\ \A k \in 1..(Len(s) - 1) : Cardinality({i \in DOMAIN s : s[i][2] = Member(k)}) = 1
Opened(out, n) ==
  LET s == Said(out, n)  at(p) == s[CHOOSE i \in DOMAIN s : s[i][2] = p][3] IN
  <<"box", at(RdfType)[2], [k \in 1..(Len(s) - 1) |-> at(Member(k))]>>
\* Every statement is a property, or says what is in a container that one property is about.
FlatConf(r, out) ==
  LET known == Labels(r)  boxes == Boxes(out, known)
      mains == SelectSeq(out, LAMBDA x : x[1] \notin boxes) IN
  /\ \A n \in boxes : IsBox(out, n) /\ Cardinality({i \in DOMAIN mains : mains[i][3] = n}) = 1
  /\ \A i \in DOMAIN out : out[i][1][1] = "b" => out[i][1] \in known \cup boxes
  /\ BagOf([i \in DOMAIN mains |->
             <<mains[i][1], mains[i][2], IF mains[i][3] \in boxes THEN Opened(out, mains[i][3]) ELSE mains[i][3]>>])
     = BagOf(Flat(r))

Flags(r) == <<r[1][1] = "i", \E i \in DOMAIN r[2] : PredicateOf(r[2][i]) = RdfType>>

ResourceConf(o) ==
  CASE o.op = "res.flatten" -> o.res[1] = Flags(o.r) /\ FlatConf(o.r, o.res[2])
    [] o.op = "res.anonymous" ->
         /\ Len(o.res) = 2
         /\ \E i \in 1..2 : LET x == o.res[i]  y == o.res[3 - i] IN
              /\ x[1][1] = "b" /\ x[3][1] = "b" /\ x[1] # x[3] /\ x[2] = o.p
              /\ y = <<x[3], o.p, <<"l", "b", "", "">>>>
ResourceWant(o) == IF o.op = "res.flatten" THEN <<Flags(o.r), Flat(o.r)>> ELSE "two blank nodes"
=============================================================================
