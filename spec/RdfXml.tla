------------------------------- MODULE RdfXml -------------------------------
(***************************************************************************)
(* RDF/XML: what an XML document says.  A document says a set of           *)
(* statements, or it is Broken, or something in it is left Open: IRIs that *)
(* are not known to be canonical (known is a set of them, or {} for all),  *)
(* and what the specification of RDF/XML does not allow but readers may.   *)
(* The nodes that have no identifier are labelled with the path to where   *)
(* they are: their labels are <<0>> \o path, which is no text.             *)
(***************************************************************************)
EXTENDS XmlText
R == INSTANCE Reference

RdfNs == Cps("http://www.w3.org/1999/02/22-rdf-syntax-ns#")
Rdf(s) == RdfNs \o Cps(s)
IsRdf(e, n) == e[2] = RdfNs /\ e[3] = Cps(n)
Attribute(e, ns, n) == {a[3] : a \in {x \in e[4] : x[1] = ns /\ x[2] = Cps(n)}}
RdfAtt(e, n) == Attribute(e, RdfNs, n)
One(S) == CHOOSE x \in S : TRUE
IsElement(c) == c[1] = "e"
Children(e) == SelectSeq(e[5], IsElement)
IsWhite(v) == \A i \in DOMAIN v : v[i] \in White
OnlyElements(e) == \A i \in DOMAIN e[5] : IsElement(e[5][i]) \/ IsWhite(e[5][i][2])
\* What else there may be than elements: white space, but readers may refuse it when it is in CDATA.
Between(e) ==
  IF ~OnlyElements(e) THEN {<<"broken">>}
  ELSE IF \E i \in DOMAIN e[5] : Len(e[5][i]) = 3 THEN {<<"open">>} ELSE {}
RECURSIVE TextOf(_), NumberText(_)
TextOf(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs)[2] \o TextOf(Tail(cs))
NumberText(n) == IF n < 10 THEN <<48 + n>> ELSE NumberText(n \div 10) \o <<48 + (n % 10)>>

\* What is in an XML literal: its value, a text that says the same, is the pair of this and -1 (and no text).
RECURSIVE Fragment(_)
Fragment(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET c == Head(cs)  rest == Fragment(Tail(cs)) IN
    IF IsElement(c) THEN <<<<"e", c[2], c[3], c[4], Fragment(c[5])>>>> \o rest
    ELSE IF c[2] = <<>> THEN rest
    ELSE IF rest # <<>> /\ ~IsElement(Head(rest)) THEN <<<<"t", c[2] \o Head(rest)[2]>>>> \o Tail(rest)
    ELSE <<<<"t", c[2]>>>> \o rest
XmlLiteral == Rdf("XMLLiteral")
XmlValue(cs) == <<0 - 1, Fragment(cs)>>
IsXmlValue(n) == n[1] = "l" /\ Len(n[2]) = 2 /\ n[2][1] = 0 - 1
\* The same for a literal that was read.
XmlRead(n) ==
  IF n[1] # "l" THEN n
  ELSE IF n[3] # XmlLiteral \/ IsXmlValue(n) THEN n
  ELSE LET e == Document(Cps("<x>") \o n[2] \o Cps("</x>")) IN
    IF Failed(e) THEN n ELSE <<"l", XmlValue(e[2][5]), n[3], n[4]>>
\* Line ends in a text that is not in the document as such.
RECURSIVE LineEndIn(_)
LineEndIn(e) ==
  IF IsElement(e) THEN (\E a \in e[4] : \E i \in DOMAIN a[3] : a[3][i] \in {133, 8232}) \/ (\E i \in DOMAIN e[5] : LineEndIn(e[5][i]))
  ELSE \E i \in DOMAIN e[2] : e[2][i] \in {133, 8232}

Broken == {<<"broken">>}
Open == {<<"open">>}
\* What a reader may refuse to understand.
Maybe == {<<"may">>}
NcName(v) == v # <<>> /\ NameStart(v[1]) /\ \A i \in DOMAIN v : NameChar(v[i])
OkIri(v, known) == IF known = {} \/ v \in known THEN {} ELSE Open
OkLabel(v) == IF NcName(v) /\ v[Len(v)] # 46 THEN {} ELSE Open

\* Names in the RDF namespace that are neither classes nor properties.
NoProperty == {Cps(s) : s \in {"RDF", "Description", "ID", "about", "parseType", "resource", "nodeID", "datatype", "bagID", "aboutEach", "aboutEachPrefix"}}
NoClass == (NoProperty \ {Cps("Description")}) \cup {Cps("li")}
Syntax == {Cps(s) : s \in {"ID", "about", "parseType", "resource", "nodeID", "datatype"}}
IsProperty(a) == a[1] # XmlNs /\ ~(a[1] = RdfNs /\ a[2] \in Syntax)
PropertyAttributes(e) == {a \in e[4] : IsProperty(a)}
Has(e, names) == \E a \in e[4] : a[1] = RdfNs /\ a[2] \in {Cps(n) : n \in names}

\* What is in scope: <<language, base>>.  References that are no IRIs are resolved against the base: readers may
\* refuse them, and must where there is no base (some of these are left open, as the parser of IRIs has its own ways
\* with white space and the like).
Ref(v, scope) == IF HasScheme(v) \/ scope[2] = <<>> THEN v ELSE R!Resolve(scope[2], v)
PlainRef(v) == \A i \in DOMAIN v : Alpha(v[i]) \/ v[i] \in Digits \cup {35, 46, 47, 63}
RefIs(v, scope, known) ==
  IF HasScheme(v) THEN OkIri(v, known)
  ELSE IF ~PlainRef(v) THEN Open
  ELSE IF scope[2] = <<>> THEN Broken
  ELSE Maybe \cup OkIri(Ref(v, scope), known)
Scope(e, outer) ==
  <<IF Attribute(e, XmlNs, "lang") # {} THEN One(Attribute(e, XmlNs, "lang")) ELSE outer[1],
    IF Attribute(e, XmlNs, "base") # {} THEN Ref(One(Attribute(e, XmlNs, "base")), outer) ELSE outer[2]>>
ScopeIs(e, outer, known) ==
  UNION {IF PlainTag(v) \/ v = <<>> THEN {} ELSE Open : v \in Attribute(e, XmlNs, "lang")}
  \cup UNION {IF HasScheme(v) \/ outer[2] # <<>> THEN RefIs(v, outer, known) ELSE Open : v \in Attribute(e, XmlNs, "base")}
Plain(v, scope) == <<"l", v, <<>>, Lowered(scope[1])>>

\* What property attributes say of a node.
AttributesSay(e, n, scope, known) ==
  UNION {IF a[1] = <<>> THEN IF a[2] \in {Cps("ID"), Cps("about"), Cps("resource"), Cps("parseType"), Cps("type")} THEN Open ELSE Broken
         ELSE IF a[1] = RdfNs /\ a[2] \in NoProperty \cup {Cps("li")} THEN Open
         ELSE IF a[1] = RdfNs /\ a[2] = Cps("type") THEN {<<n, Rdf("type"), <<"i", Ref(a[3], scope)>>>>} \cup RefIs(a[3], scope, known)
         ELSE {<<n, a[1] \o a[2], Plain(a[3], scope)>>} \cup OkIri(a[1] \o a[2], known) : a \in PropertyAttributes(e)}

\* The node that a node element is about, and whether it says so rightly.
NodeOf(e, path, scope) ==
  IF RdfAtt(e, "about") # {} THEN <<"i", Ref(One(RdfAtt(e, "about")), scope)>>
  ELSE IF RdfAtt(e, "nodeID") # {} THEN <<"b", One(RdfAtt(e, "nodeID"))>>
  ELSE IF RdfAtt(e, "ID") # {} THEN <<"i", Ref(<<35>> \o One(RdfAtt(e, "ID")), scope)>>
  ELSE <<"b", <<0>> \o path>>
NodeIs(e, path, scope, known) ==
  IF Cardinality(RdfAtt(e, "about")) + Cardinality(RdfAtt(e, "nodeID")) + Cardinality(RdfAtt(e, "ID")) > 1 THEN Open
  ELSE IF RdfAtt(e, "nodeID") # {} THEN OkLabel(One(RdfAtt(e, "nodeID")))
  ELSE IF RdfAtt(e, "about") # {} THEN RefIs(One(RdfAtt(e, "about")), scope, known)
  ELSE IF RdfAtt(e, "ID") # {}
  THEN IF scope[2] = <<>> THEN Broken
       ELSE IF ~NcName(One(RdfAtt(e, "ID"))) \/ \E i \in DOMAIN One(RdfAtt(e, "ID")) : One(RdfAtt(e, "ID"))[i] > 126 THEN Open ELSE {}
  ELSE {}

RECURSIVE NodeSays(_, _, _, _), PropertySays(_, _, _, _, _, _), ListSays(_, _, _, _, _)
\* The statements of property elements: members of a container are counted.
PropertiesSay(e, n, path, scope, known) ==
  LET cs == Children(e)
      li(k) == Cardinality({j \in 1..k : IsRdf(cs[j], "li")})
      p(k) == IF IsRdf(cs[k], "li") THEN RdfNs \o <<95>> \o NumberText(li(k)) ELSE cs[k][2] \o cs[k][3] IN
  IF ~OnlyElements(e) THEN Broken
  ELSE Between(e) \cup UNION {PropertySays(cs[k], n, p(k), Append(path, k), scope, known) : k \in DOMAIN cs}
NodeSays(e, path, outer, known) ==
  LET scope == Scope(e, outer)  n == NodeOf(e, path, scope) IN
  IF e[2] = <<>> THEN Broken
  ELSE NodeIs(e, path, scope, known) \cup ScopeIs(e, outer, known) \cup AttributesSay(e, n, scope, known)
       \cup (IF Has(e, {"parseType", "resource", "datatype"}) THEN Open ELSE {})
       \cup (IF IsRdf(e, "Description") THEN {}
             ELSE IF e[2] = RdfNs /\ e[3] \in NoClass THEN Open
             ELSE {<<n, Rdf("type"), <<"i", e[2] \o e[3]>>>>} \cup OkIri(e[2] \o e[3], known))
       \cup PropertiesSay(e, n, path, scope, known)
ListSays(cs, k, path, scope, known) ==
  IF k > Len(cs) THEN {}
  ELSE LET cell == <<"b", <<0>> \o Append(path, 1000 + k)>>
           next == IF k = Len(cs) THEN <<"i", Rdf("nil")>> ELSE <<"b", <<0>> \o Append(path, 1001 + k)>> IN
    {<<cell, Rdf("first"), NodeOf(cs[k], Append(path, k), Scope(cs[k], scope))>>, <<cell, Rdf("rest"), next>>}
    \cup NodeSays(cs[k], Append(path, k), scope, known) \cup ListSays(cs, k + 1, path, scope, known)
PropertySays(e, s, p, path, outer, known) ==
  LET scope == Scope(e, outer)  cs == Children(e)
      resource == RdfAtt(e, "resource")  node == RdfAtt(e, "nodeID")
      type == RdfAtt(e, "datatype")  parse == RdfAtt(e, "parseType")
      more == PropertyAttributes(e)
      fresh == <<"b", <<0>> \o Append(path, 0)>>
      empty == cs = <<>> /\ TextOf(e[5]) = <<>>
      what ==
        IF e[2] = <<>> THEN Broken
        ELSE IF (e[2] = RdfNs /\ e[3] \in NoProperty) \/ Has(e, {"ID", "about"}) THEN Open
        ELSE IF Cardinality(resource) + Cardinality(node) + Cardinality(type) + Cardinality(parse) > 1 THEN Open
        ELSE IF parse # {} /\ more # {} THEN Open
        ELSE IF parse = {Cps("Resource")} THEN {<<s, p, fresh>>} \cup PropertiesSay(e, fresh, path, scope, known)
        ELSE IF parse = {Cps("Collection")}
        THEN IF ~OnlyElements(e) THEN Broken
             ELSE Between(e) \cup {<<s, p, IF cs = <<>> THEN <<"i", Rdf("nil")>> ELSE <<"b", <<0>> \o Append(path, 1001)>>>>}
                  \cup ListSays(cs, 1, path, scope, known)
        ELSE IF parse = {Cps("Literal")} THEN IF LineEndIn(e) THEN Open ELSE {<<s, p, <<"l", XmlValue(e[5]), XmlLiteral, <<>>>>>>}
        ELSE IF parse # {} THEN Open
        ELSE IF resource # {} \/ node # {} \/ (more # {} /\ type = {})
        THEN LET n == IF resource # {} THEN <<"i", Ref(One(resource), scope)>> ELSE IF node # {} THEN <<"b", One(node)>> ELSE fresh IN
             IF empty THEN {<<s, p, n>>} \cup AttributesSay(e, n, scope, known)
                           \cup (IF resource # {} THEN RefIs(One(resource), scope, known) ELSE IF node # {} THEN OkLabel(One(node)) ELSE {})
             ELSE IF OnlyElements(e) /\ cs = <<>> THEN Open ELSE Broken
        ELSE IF more # {} THEN Open
        ELSE IF cs # <<>>
        THEN IF Len(cs) > 1 \/ ~OnlyElements(e) THEN Broken
             ELSE IF type # {} THEN Open
             ELSE Between(e) \cup {<<s, p, NodeOf(cs[1], Append(path, 0), Scope(cs[1], scope))>>} \cup NodeSays(cs[1], Append(path, 0), scope, known)
        ELSE IF type # {} THEN {<<s, p, <<"l", TextOf(e[5]), Ref(One(type), scope), <<>>>>>>} \cup RefIs(One(type), scope, known)
        ELSE {<<s, p, Plain(TextOf(e[5]), scope)>>}
  IN what \cup ScopeIs(e, outer, known) \cup OkIri(p, known)

\* Characters that the versions of XML disagree about, and those that none has.
Doubtful(c) == (c < 32 /\ c \notin {9, 10}) \/ c \in 127..159 \/ c \in {8232, 65534, 65535}
\* The same for what a document says.
DoubtfulHere(v) == \E i \in DOMAIN v : (v[i] < 32 /\ v[i] \notin {9, 10, 13}) \/ v[i] \in {65534, 65535, Questionable}
RECURSIVE DoubtfulIn(_)
DoubtfulIn(e) ==
  IF IsElement(e) THEN DoubtfulHere(e[2]) \/ (\E a \in e[4] : DoubtfulHere(a[1]) \/ DoubtfulHere(a[3])) \/ (\E i \in DOMAIN e[5] : DoubtfulIn(e[5][i])) ELSE DoubtfulHere(e[2])
ReadXml(t, known) ==
  LET h == Declaration(t)  d == Document(t) IN
  IF known # {} /\ (Find(t, 1, Cps("<!DOCTYPE")) # 0 \/ \E i \in DOMAIN t : Doubtful(t[i])) THEN <<"open">>
  ELSE IF ~Failed(h) /\ h[3] # <<>> /\ Lowered(h[3]) # Cps("utf-8") THEN <<"open">>
  ELSE IF Failed(d) THEN IF known # {} /\ (MoreElements(t) \/ OddInstruction(t)) THEN <<"open">> ELSE <<"refuse">>
  ELSE IF known # {} /\ DoubtfulIn(d[2]) THEN <<"open">>
  ELSE LET e == d[2]  cs == Children(e)  scope == Scope(e, <<<<>>, <<>>>>)
           root == IsRdf(e, "RDF")
           r == IF ~root THEN NodeSays(e, <<1>>, <<<<>>, <<>>>>, known)
                ELSE IF ~OnlyElements(e) THEN Broken
                ELSE ScopeIs(e, <<<<>>, <<>>>>, known) \cup Between(e) \cup (IF \A a \in e[4] : a[1] = XmlNs THEN {} ELSE Open)
                     \cup UNION {NodeSays(cs[k], <<k>>, scope, known) : k \in DOMAIN cs} IN
    IF <<"broken">> \in r THEN <<"refuse">>
    ELSE IF <<"open">> \in r THEN <<"open">>
    \* A document may be a single node element.
    ELSE IF root /\ <<"may">> \notin r THEN <<"must", r>> ELSE <<"may", r \ Maybe>>
=============================================================================
