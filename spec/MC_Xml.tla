------------------------------- MODULE MC_Xml -------------------------------
(***************************************************************************)
(* Documents in RDF/XML, put together from parts whose meaning is known:   *)
(* node elements with every kind of name, identification, language and     *)
(* property attributes; property elements of every kind, alone, in pairs   *)
(* and inside of each other; the structure of XML, right and wrong; every  *)
(* character in a text and in an attribute; and white space, comments and  *)
(* cuts everywhere.  ReadXml has to come from the text to what the parts   *)
(* say.                                                                    *)
(***************************************************************************)
EXTENDS RdfXml, Emit
CONSTANT More
VARIABLES d, o

E(n) == Cps("http://e/") \o Cps(n)
P == E("p")
PlainL(s, lang) == <<"l", Cps(s), <<>>, Cps(lang)>>
Anon(path) == <<"b", <<0>> \o path>>
Iri(s) == <<"i", Cps(s)>>

(***************************************************************************)
(* Property elements: what each says of s, when it is the k-th child of    *)
(* the element at path, in language lang; and its verdict.                 *)
(***************************************************************************)
RightTexts == [
  text |-> "<e:p>x</e:p>", empty |-> "<e:p/>", none |-> "<e:p></e:p>", white |-> "<e:p> </e:p>", spaced |-> "<e:p  > x <!--y--> z</e:p >",
  lang |-> "<e:p xml:lang='fr'>x</e:p>", nolang |-> "<e:p xml:lang=''>x</e:p>", cdata |-> "<e:p>x<![CDATA[ <y>&amp; ]]]]>&gt;</e:p>", amp |-> "<e:p>&lt;&#65;&#x42;&amp;amp;&quot;</e:p>",
  pi |-> "<e:p>x<?y z?> </e:p>", onlycdata |-> "<e:p><![CDATA[]]></e:p>",
  whitepi |-> "<e:p> <?y z?>x</e:p>", whitecdata |-> "<e:p> <!--y--> <![CDATA[ ]]> <![CDATA[x]]> <?y?> </e:p>",
  typed |-> "<e:p rdf:datatype='urn:c'>x</e:p>", typedlang |-> "<e:p xml:lang=\"fr\" rdf:datatype=\"urn:c\"> x</e:p>", typedempty |-> "<e:p rdf:datatype='urn:c'/>",
  resource |-> "<e:p rdf:resource='http://a/'/>", resource2 |-> "<e:p rdf:resource='http://a/'></e:p>", resource3 |-> "<e:p rdf:resource='http://a/'><!-- x --></e:p>",
  blank |-> "<e:p rdf:nodeID='m'/>", same |-> "<e:p rdf:nodeID='n'/>",
  about |-> "<e:p><rdf:Description rdf:about='http://a/'/></e:p>", nested |-> "<e:p> <rdf:Description/> </e:p>", nestedblank |-> "<e:p><rdf:Description rdf:nodeID='m'></rdf:Description></e:p>",
  thing |-> "<e:p><e:T/></e:p>", thinglang |-> "<e:p xml:lang='fr'><e:T e:q='x'/></e:p>", deep |-> "<e:p><e:T><e:q>x</e:q><e:q><e:T/></e:q></e:T></e:p>",
  parse |-> "<e:p rdf:parseType='Resource'><e:q>x</e:q></e:p>", parseempty |-> "<e:p rdf:parseType='Resource'/>", parsedeep |-> "<e:p rdf:parseType='Resource' xml:lang='fr'> <e:q>x</e:q> <e:q rdf:parseType='Resource'/></e:p>",
  list0 |-> "<e:p rdf:parseType='Collection'/>", list1 |-> "<e:p rdf:parseType='Collection'><e:T/></e:p>",
  list2 |-> "<e:p rdf:parseType='Collection'> <rdf:Description rdf:about='http://a/'/><rdf:Description rdf:nodeID='n'><e:q>x</e:q></rdf:Description> </e:p>",
  attribute |-> "<e:p e:q='x'/>", attributes |-> "<e:p e:q='x' e:p='y' xml:lang='fr'></e:p>", typeattribute |-> "<e:p rdf:type='urn:c'/>", resourceattribute |-> "<e:p rdf:resource='http://a/' e:q='x'/>",
  blankattribute |-> "<e:p e:q='x' rdf:nodeID='m'/>",
  li |-> "<rdf:li>x</rdf:li>", liresource |-> "<rdf:li rdf:resource='http://a/'/>", member |-> "<rdf:_1>x</rdf:_1>", value |-> "<rdf:value>x</rdf:value>",
  xml |-> "<e:p rdf:parseType='Literal'>x<y/></e:p>", xmlempty |-> "<e:p rdf:parseType='Literal'/>", xmltext |-> "<e:p rdf:parseType='Literal' xml:lang='fr'> x <!--y--><![CDATA[<y>&]]>&amp; </e:p>",
  xmldeep |-> "<e:p rdf:parseType='Literal'><y e:q='x' q='&lt;&quot;'><e:p><y>x</y></e:p> <y/></y><y/></e:p>",
  xmlnames |-> "<e:p rdf:parseType='Literal' xmlns='http://a/'><y><y xmlns='http://e/'><y xmlns='http://a/'/><y xmlns=''><y/></y></y></y></e:p>",
  default |-> "<p xmlns='http://e/'>x</p>", inner |-> "<f:p xmlns:f='http://e/'><f:T f:q='x'/></f:p>" ]
WrongTexts == [
  noname |-> "<p>x</p>", unbound |-> "<u:p>x</u:p>", other |-> "<e:p>x</e:q>", open |-> "<e:p>x", close |-> "</e:p>", cross |-> "<e:p><e:T></e:p></e:T>", bare |-> "<e:p>&</e:p>", unknown |-> "<e:p>&x;</e:p>",
  nochar |-> "<e:p>&#0;</e:p>", surrogate |-> "<e:p>&#xD800;</e:p>", attlt |-> "<e:p e:q='<'/>", noquote |-> "<e:p e:q=x/>", twice |-> "<e:p e:q='x' e:q='y'/>",
  comment |-> "<e:p><!-- x -- y --></e:p>", openpi |-> "<e:p><?y </e:p>", opencdata |-> "<e:p><![CDATA[x</e:p>", stray |-> "x", straycdata |-> "<![CDATA[x]]>",
  two |-> "<e:p><e:T/><e:T/></e:p>", mixed |-> "<e:p>x<e:T/></e:p>", mixed2 |-> "<e:p><e:T/>x</e:p>", mixed3 |-> "<e:p><e:T/><![CDATA[x]]></e:p>",
  resourcetext |-> "<e:p rdf:resource='http://a/'>x</e:p>", resourcenode |-> "<e:p rdf:resource='http://a/'><e:T/></e:p>", blanktext |-> "<e:p rdf:nodeID='m'>x</e:p>", attributetext |-> "<e:p e:q='x'>y</e:p>",
  parsetext |-> "<e:p rdf:parseType='Resource'>x</e:p>", listtext |-> "<e:p rdf:parseType='Collection'>x</e:p>", listtext2 |-> "<e:p rdf:parseType='Collection'><e:T/>x</e:p>",
  xmlopen |-> "<e:p rdf:parseType='Literal'>x", xmlcross |-> "<e:p rdf:parseType='Literal'>x<y></e:p></y>", xmlbare |-> "<e:p rdf:parseType='Literal'>x & y</e:p>", xmlunbound |-> "<e:p rdf:parseType='Literal'><u:y/></e:p>",
  innernoname |-> "<e:p><T/></e:p>", innerunbound |-> "<e:p><u:T/></e:p>", attributenoname |-> "<e:p q='x'/>", innerattribute |-> "<e:p><e:T q='x'/></e:p>",
  relative |-> "<e:p rdf:resource='x'/>", unknowntype |-> "<e:p rdf:datatype='x'>x</e:p>",
  noid |-> "<e:p><rdf:Description rdf:ID='x'/></e:p>", undeclare |-> "<e:p><T xmlns=''/></e:p>" ]
OpenTexts == [
  resourcewhite |-> "<e:p rdf:resource='http://a/'> </e:p>", both |-> "<e:p rdf:resource='http://a/' rdf:nodeID='m'/>", parseother |-> "<e:p rdf:parseType='x'>x</e:p>",
  id |-> "<e:p rdf:ID='x'>x</e:p>", propertyabout |-> "<e:p rdf:about='http://a/'/>", reserved |-> "<rdf:Description/>", reserved2 |-> "<rdf:nodeID>x</rdf:nodeID>", liattribute |-> "<e:p rdf:li='x'/>",
  typednode |-> "<e:p rdf:datatype='urn:c'><e:T/></e:p>", typedattribute |-> "<e:p rdf:datatype='urn:c' e:q='x'/>", parseattribute |-> "<e:p rdf:parseType='Resource' e:q='x'/>", label |-> "<e:p rdf:nodeID='1 x'/>",
  white |-> "<e:p rdf:resource=' x'/>", unknowniri |-> "<e:p rdf:resource='http://a'/>", unknownname |-> "<e:y/>", badlang |-> "<e:p xml:lang='abcdefghij'>x</e:p>",
  unqualified |-> "<e:p resource='http://a/'/>",
  twicens |-> "<e:p xmlns:f='http://e/' e:q='x' f:q='y'/>" ]
Right == DOMAIN RightTexts
Wrong == DOMAIN WrongTexts
PText(k) == Cps(IF k \in Right THEN RightTexts[k] ELSE IF k \in Wrong THEN WrongTexts[k] ELSE OpenTexts[k])
PIs(k) == IF k \in Right THEN "must" ELSE IF k \in Wrong THEN "refuse" ELSE "open"
Keys == Right \cup Wrong \cup DOMAIN OpenTexts
Lit(s, lang, x) == {<<s, P, PlainL(x, lang)>>}
TypeOf(n) == {<<n, Rdf("type"), <<"i", E("T")>>>>}
Xml(s, cs) == {<<s, P, <<"l", <<0 - 1, cs>>, Rdf("XMLLiteral"), <<>>>>>>}
T(s) == <<"t", Cps(s)>>
El(ns, n, atts, cs) == <<"e", Cps(ns), Cps(n), atts, cs>>
\* li is how many rdf:li there are up to this one.
Li(n) == RdfNs \o <<95, 48 + n>>
PSays(k, s, path, lang, li) ==
  LET fresh == Anon(Append(path, 0))  in == Append(path, 0)
      To(n) == {<<s, P, n>>}
      Q(n, x, g) == {<<n, E("q"), PlainL(x, g)>>} IN
  CASE k \in {"text", "default"} -> Lit(s, lang, "x")
    [] k \in {"empty", "none", "onlycdata"} -> Lit(s, lang, "")
    [] k = "white" -> Lit(s, lang, " ")
    [] k = "spaced" -> Lit(s, lang, " x  z")
    [] k = "whitepi" -> Lit(s, lang, " x")
    [] k = "whitecdata" -> Lit(s, lang, "    x  ")
    [] k = "lang" -> Lit(s, "fr", "x")
    [] k = "nolang" -> Lit(s, "", "x")
    [] k = "cdata" -> Lit(s, lang, "x <y>&amp; ]]>")
    [] k = "amp" -> Lit(s, lang, "<AB&amp;\"")
    [] k = "pi" -> Lit(s, lang, "x ")
    [] k = "typed" -> {<<s, P, <<"l", Cps("x"), Cps("urn:c"), <<>>>>>>}
    [] k = "typedlang" -> {<<s, P, <<"l", Cps(" x"), Cps("urn:c"), <<>>>>>>}
    [] k = "typedempty" -> {<<s, P, <<"l", <<>>, Cps("urn:c"), <<>>>>>>}
    [] k \in {"resource", "resource2", "resource3", "about"} -> To(Iri("http://a/"))
    [] k \in {"blank", "nestedblank"} -> To(<<"b", Cps("m")>>)
    [] k = "same" -> To(<<"b", Cps("n")>>)
    [] k \in {"nested", "parseempty"} -> To(fresh)
    [] k = "thing" -> To(fresh) \cup TypeOf(fresh)
    [] k = "thinglang" -> To(fresh) \cup TypeOf(fresh) \cup Q(fresh, "x", "fr")
    [] k = "inner" -> To(fresh) \cup TypeOf(fresh) \cup Q(fresh, "x", lang)
    [] k = "deep" -> LET n == Anon(in \o <<2, 0>>) IN To(fresh) \cup TypeOf(fresh) \cup Q(fresh, "x", lang) \cup TypeOf(n) \cup {<<fresh, E("q"), n>>}
    [] k = "parse" -> To(fresh) \cup Q(fresh, "x", lang)
    [] k = "parsedeep" -> To(fresh) \cup Q(fresh, "x", "fr") \cup {<<fresh, E("q"), Anon(path \o <<2, 0>>)>>}
    [] k = "list0" -> To(<<"i", Rdf("nil")>>)
    [] k = "list1" ->
         LET c == Anon(Append(path, 1001))  n == Anon(Append(path, 1)) IN
         To(c) \cup {<<c, Rdf("first"), n>>, <<c, Rdf("rest"), <<"i", Rdf("nil")>>>>} \cup TypeOf(n)
    [] k = "list2" ->
         LET c == Anon(Append(path, 1001))  e == Anon(Append(path, 1002))  n == <<"b", Cps("n")>> IN
         To(c) \cup {<<c, Rdf("first"), Iri("http://a/")>>, <<c, Rdf("rest"), e>>, <<e, Rdf("first"), n>>, <<e, Rdf("rest"), <<"i", Rdf("nil")>>>>} \cup Q(n, "x", lang)
    [] k = "attribute" -> To(fresh) \cup Q(fresh, "x", lang)
    [] k = "attributes" -> To(fresh) \cup Q(fresh, "x", "fr") \cup Lit(fresh, "fr", "y")
    [] k = "typeattribute" -> To(fresh) \cup {<<fresh, Rdf("type"), Iri("urn:c")>>}
    [] k = "resourceattribute" -> To(Iri("http://a/")) \cup Q(Iri("http://a/"), "x", lang)
    [] k = "blankattribute" -> To(<<"b", Cps("m")>>) \cup Q(<<"b", Cps("m")>>, "x", lang)
    [] k = "li" -> {<<s, Li(li), PlainL("x", lang)>>}
    [] k = "liresource" -> {<<s, Li(li), Iri("http://a/")>>}
    [] k = "member" -> {<<s, Rdf("_1"), PlainL("x", lang)>>}
    [] k = "xml" -> Xml(s, <<T("x"), El("", "y", {}, <<>>)>>)
    [] k = "xmlempty" -> Xml(s, <<>>)
    [] k = "xmltext" -> Xml(s, <<T(" x <y>&& ")>>)
    [] k = "xmldeep" -> Xml(s, <<El("", "y", {<<E(""), Cps("q"), Cps("x")>>, <<<<>>, Cps("q"), Cps("<\"")>>},
                                     <<El("http://e/", "p", {}, <<El("", "y", {}, <<T("x")>>)>>), T(" "), El("", "y", {}, <<>>)>>), El("", "y", {}, <<>>)>>)
    [] k = "xmlnames" -> Xml(s, <<El("http://a/", "y", {}, <<El("http://e/", "y", {}, <<El("http://a/", "y", {}, <<>>), El("", "y", {}, <<El("", "y", {}, <<>>)>>)>>)>>)>>)
    [] k = "value" -> {<<s, Rdf("value"), PlainL("x", lang)>>}
IsLi(k) == k \in {"li", "liresource"}
RECURSIVE AllText(_), Lis(_)
AllText(ks) == IF ks = <<>> THEN <<>> ELSE PText(Head(ks)) \o AllText(Tail(ks))
Lis(ks) == Cardinality({i \in DOMAIN ks : IsLi(ks[i])})
Worst(S) == IF "refuse" \in S THEN "refuse" ELSE IF "open" \in S THEN "open" ELSE "must"
\* References to other things than the known ones, when there is a base.
InBase(k, based, v) == IF based /\ k \in {"relative", "unknowntype", "badtype"} THEN "open" ELSE v
AllIs(ks, based) == Worst({InBase(ks[i], based, PIs(ks[i])) : i \in DOMAIN ks})
AllSay(ks, s, path, lang) == UNION {PSays(ks[i], s, Append(path, i), lang, Lis(SubSeq(ks, 1, i))) : i \in DOMAIN ks}

(***************************************************************************)
(* Node elements: <<name, identification, attributes, language>>.          *)
(***************************************************************************)
NodeNames == [description |-> "rdf:Description", typed |-> "e:T", bag |-> "rdf:Bag", reserved |-> "rdf:li", bare |-> "T", root |-> "rdf:RDF", xdescription |-> "e:Description"]
NameIs(k) == CASE k \in {"reserved", "root", "xdescription"} -> "open" [] k = "bare" -> "refuse" [] OTHER -> "must"
NameSays(k, n) == CASE k = "typed" -> TypeOf(n) [] k = "bag" -> {<<n, Rdf("type"), <<"i", Rdf("Bag")>>>>} [] OTHER -> {}
Ids == [about |-> " rdf:about='http://a/'", urn |-> "  rdf:about = \"urn:c\"", amp |-> " rdf:about='http://a/&#x3f;b&amp;c'", node |-> " rdf:nodeID='n'", none |-> "", id |-> " xml:base='http://b/' rdf:ID='x'",
        twice |-> " rdf:about='http://a/' rdf:nodeID='n'", relative |-> " rdf:about='x'", label |-> " rdf:nodeID='1 x'", noid |-> " rdf:ID='x'", badid |-> " xml:base='http://b/' rdf:ID='x y'"]
IdIs(k) == CASE k \in {"twice", "label", "badid"} -> "open" [] k \in {"noid", "relative"} -> "refuse" [] OTHER -> "must"
IdSays(k, path) == CASE k = "about" -> Iri("http://a/") [] k = "urn" -> Iri("urn:c") [] k = "amp" -> Iri("http://a/?b&c") [] k = "node" -> <<"b", Cps("n")>> [] k = "id" -> Iri("http://b/#x") [] OTHER -> Anon(path)
Atts == [none |-> "", q |-> " e:q='x'", two |-> " e:q=' x&#10;' e:p=\"'\"", type |-> " rdf:type='urn:c'", both |-> " rdf:type='urn:c' e:q='x'", value |-> " rdf:value='x'",
         badtype |-> " rdf:type='x'", unknown |-> " e:y='x'", unqualified |-> " about='http://a/'", bare |-> " q='x'", unbound |-> " u:q='x'", space |-> " xml:space='preserve'", datatype |-> " rdf:datatype='urn:c'", reserved |-> " rdf:li='x'"]
AttIs(k) == CASE k \in {"unknown", "unqualified", "datatype", "reserved"} -> "open" [] k \in {"bare", "unbound", "badtype"} -> "refuse" [] OTHER -> "must"
AttSays(k, n, lang) ==
  LET q == {<<n, E("q"), PlainL("x", lang)>>}  type == {<<n, Rdf("type"), Iri("urn:c")>>} IN
  CASE k = "q" -> q [] k = "two" -> {<<n, E("q"), <<"l", Cps(" x") \o <<10>>, <<>>, Cps(lang)>>>>} \cup Lit(n, lang, "'")
    [] k = "type" -> type [] k = "both" -> type \cup q [] k = "value" -> {<<n, Rdf("value"), PlainL("x", lang)>>} [] OTHER -> {}
\* Languages of the root and of the node.
Langs == [none |-> <<"", "">>, outer |-> <<" xml:lang='en-GB'", "">>, inner |-> <<"", " xml:lang='EN-GB'">>, both |-> <<" xml:lang='fr'", " xml:lang='en-gb'">>, off |-> <<" xml:lang='fr'", " xml:lang=''">>]
LangOf(k) == IF k \in {"none", "off"} THEN "" ELSE "en-gb"

Head1 == Cps("<rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'")
Tail1 == Cps("</rdf:RDF>")
NodeText(x, ps) ==
  LET n == Cps(NodeNames[x[1]])
      start == <<60>> \o n \o Cps(Ids[x[2]]) \o Cps(Atts[x[3]]) \o Cps(Langs[x[4]][2]) IN
  IF ps = <<>> THEN start \o Cps("/>") ELSE start \o Cps(">") \o AllText(ps) \o Cps("</") \o n \o Cps(">")
NodeWorst(x, ps) ==
  LET based == x[2] \in {"id", "badid"} IN Worst({NameIs(x[1]), IdIs(x[2]), InBase(x[3], based, AttIs(x[3])), AllIs(ps, based)})
NodeMeans(x, ps, path) ==
  LET n == IdSays(x[2], path)  lang == LangOf(x[4]) IN
  NameSays(x[1], n) \cup AttSays(x[3], n, lang) \cup AllSay(ps, n, path, lang)
NodeDoc(x, ps) == Head1 \o Cps(Langs[x[4]][1]) \o Cps(">") \o NodeText(x, ps) \o Tail1
Plain0 == <<"description", "about", "none", "none">>
NodeSet == (DOMAIN NodeNames) \X (DOMAIN Ids) \X (DOMAIN Atts) \X (IF More THEN DOMAIN Langs ELSE {"none", "both"})
\* Contexts of property elements.
Contexts == {Plain0, <<"typed", "none", "q", "outer">>, <<"bag", "node", "type", "inner">>} \cup IF More THEN {<<"description", "id", "none", "off">>, <<"description", "urn", "both", "both">>} ELSE {}
Pairs == IF More THEN Keys \X Keys ELSE (Right \X Right) \cup ({"text", "nested", "list2"} \X Keys)
\* A property element inside of a node inside of a property element, and one after these.
Nestings == (Right \X {"text", "li", "attribute"}) \cup (IF More THEN (Wrong \cup DOMAIN OpenTexts) \X {"text"} ELSE {})
NestText(x, k, after) == Head1 \o Cps("><rdf:Description rdf:about='urn:c'><e:p>") \o NodeText(x, <<k>>) \o Cps("</e:p>") \o PText(after) \o Cps("</rdf:Description>") \o Tail1
NestMeans(x, k, after) ==
  {<<Iri("urn:c"), P, IdSays(x[2], <<1, 1, 0>>)>>} \cup NodeMeans(x, <<k>>, <<1, 1, 0>>) \cup PSays(after, Iri("urn:c"), <<1, 2>>, "", 1)
Inners == {Plain0, <<"typed", "none", "none", "inner">>, <<"typed", "node", "q", "none">>, <<"description", "id", "none", "none">>}
\* Nodes one after the other; in a collection.
TwoDoc(x, y) == Head1 \o Cps(">") \o NodeText(x, <<"text">>) \o NodeText(y, <<"text", "parse">>) \o Tail1
Nodes1 == {x \in NodeSet : x[4] # "both" /\ x[3] \in {"none", "q", "two", "bare"} /\ x[2] \in {"about", "node", "none", "id", "noid"} /\ x[1] \in {"description", "typed", "reserved", "bare"}}

(***************************************************************************)
(* Bases: of the root, a node, one of its properties, a node or reference  *)
(* in that, and a node after all of these.                                 *)
(***************************************************************************)
BaseTexts == [none |-> "", b |-> " xml:base='http://b/'", f |-> " xml:base=\"http://b/d?x#f\"", r |-> " xml:base='e/'"]
Under(outer, k) == IF k = "none" THEN outer ELSE IF k = "r" THEN IF outer = "none" THEN "none" ELSE "e" ELSE k
OpenBase(outer, k) == k = "r" /\ outer = "none"
Refs == [id |-> " rdf:ID='x'", rel |-> " rdf:about='y?z'", same |-> " rdf:about=''", up |-> " rdf:about='../../y'", abs |-> " rdf:about='urn:c'", none |-> ""]
RefMeans(k, base, path) ==
  LET b == CASE base = "b" -> "http://b/" [] base = "f" -> "http://b/d?x" [] base = "e" -> "http://b/e/" [] OTHER -> ""
      dir == IF base = "e" THEN "http://b/e/" ELSE "http://b/" IN
  CASE k = "id" -> Iri(b \o "#x") [] k = "rel" -> Iri(dir \o "y?z") [] k = "same" -> Iri(b) [] k = "up" -> Iri("http://b/y") [] k = "abs" -> Iri("urn:c") [] OTHER -> Anon(path)
RefIs1(k, base) ==
  CASE k \in {"abs", "none"} -> "must"
    [] base = "none" -> "refuse"
    [] k = "id" -> "must"
    [] OTHER -> "may"
Inners1 == DOMAIN Refs \cup {"resource", "datatype"}
BaseSet == [root : {"none", "b", "f"}, node : {"none", "b", "f", "r"}, prop : {"none", "b", "r"}, id : {"id", "rel", "abs", "none"}, inner : Inners1, last : DOMAIN Refs]
InnerText(k) ==
  CASE k = "resource" -> " rdf:resource='y?z'/>" [] k = "datatype" -> " rdf:datatype='y?z'>x</e:p>"
    [] OTHER -> "><rdf:Description" \o Refs[k] \o "/></e:p>"
BaseDoc(x) ==
  Head1 \o Cps(BaseTexts[x.root] \o "><rdf:Description" \o BaseTexts[x.node] \o Refs[x.id] \o "><e:p" \o BaseTexts[x.prop] \o InnerText(x.inner)
               \o "<e:p rdf:datatype='urn:c'>x</e:p></rdf:Description><e:T" \o Refs[x.last] \o "/>") \o Tail1
BaseVerdict(x) ==
  LET n == Under(x.root, x.node)  p == Under(n, x.prop)
      V == { RefIs1(x.id, n), IF x.inner \in {"resource", "datatype"} THEN RefIs1("rel", p) ELSE RefIs1(x.inner, p), RefIs1(x.last, x.root), IF "r" \in {x.node, x.prop} THEN "may" ELSE "must" } IN
  IF "refuse" \in V THEN "refuse" ELSE IF "may" \in V THEN "may" ELSE "must"
BaseMeans(x) ==
  LET n == Under(x.root, x.node)  p == Under(n, x.prop)  s == RefMeans(x.id, n, <<1>>)  last == RefMeans(x.last, x.root, <<2>>)
      rel == RefMeans("rel", p, <<>>) IN
  {<<s, P, CASE x.inner = "resource" -> rel [] x.inner = "datatype" -> <<"l", Cps("x"), rel[2], <<>>>> [] OTHER -> RefMeans(x.inner, p, <<1, 1, 0>>)>>}
  \cup {<<s, P, <<"l", Cps("x"), Cps("urn:c"), <<>>>>>>} \cup TypeOf(last)

(***************************************************************************)
(* The document itself: one statement, in all kinds of places.             *)
(***************************************************************************)
OneTriple == <<Iri("http://a/"), P, PlainL("x", "")>>
RdfStart == "<rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'>"
N0 == "<rdf:Description rdf:about='http://a/'><e:p>x</e:p></rdf:Description>"
Whole == RdfStart \o N0 \o "</rdf:RDF>"
Structures == { <<Cps(x[1]), x[2], x[3]>> : x \in {
  <<Whole, "must", {OneTriple}>>, <<"<?xml version='1.0'?>" \o Whole, "must", {OneTriple}>>, <<"<?xml version=\"1.0\" encoding=\"UTF-8\"?>" \o Whole, "must", {OneTriple}>>, <<"<?xml version='1.0' encoding='utf-8' standalone='yes' ?>" \o Whole, "must", {OneTriple}>>,
  <<"<?xml version='1.1'?>" \o Whole, "must", {OneTriple}>>, <<"<?xml version='1.0' encoding='ISO-8859-1'?>" \o Whole, "open", {}>>, <<"<?xml?>" \o Whole, "refuse", {}>>, <<"<?xml version='3.0'?>" \o Whole, "refuse", {}>>,
  <<"<?xml encoding='UTF-8'?>" \o Whole, "refuse", {}>>, <<" <?xml version='1.0'?>" \o Whole, "refuse", {}>>, <<"<!-- x -->" \o Whole \o "<!-- y -->", "must", {OneTriple}>>, <<"<?y z?> " \o Whole \o " <?y?> ", "must", {OneTriple}>>,
  <<"<!DOCTYPE x>" \o Whole, "open", {}>>, <<"", "refuse", {}>>, <<" ", "refuse", {}>>, <<"x", "refuse", {}>>, <<"<!-- x -->", "refuse", {}>>, <<Whole \o Whole, "open", {}>>, <<Whole \o "x", "refuse", {}>>, <<"x" \o Whole, "refuse", {}>>,
  <<Whole \o "<", "refuse", {}>>, <<Whole \o "</rdf:RDF>", "refuse", {}>>, <<RdfStart, "refuse", {}>>, <<RdfStart \o N0, "refuse", {}>>, <<RdfStart \o "</rdf:RDF>", "must", {}>>,
  <<"<rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'/>", "must", {}>>, <<"<RDF xmlns='http://www.w3.org/1999/02/22-rdf-syntax-ns#'/>", "must", {}>>,
  <<"<x:RDF xmlns:x='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'><x:Description x:about='http://a/'><e:p>x</e:p></x:Description></x:RDF>", "must", {OneTriple}>>,
  <<"<rdf:RDF/>", "refuse", {}>>, <<"<RDF/>", "refuse", {}>>, <<"<RDF xmlns='http://e/'/>", "open", {}>>,
  <<"<e:T xmlns:e='http://e/'/>", "may", TypeOf(Anon(<<1>>))>>,
  <<"<rdf:Description xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/' rdf:about='http://a/'><e:p>x</e:p></rdf:Description>", "may", {OneTriple}>>,
  <<"<rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/' e:q='x'/>", "open", {}>>,
  <<RdfStart \o "x</rdf:RDF>", "refuse", {}>>, <<RdfStart \o N0 \o "x</rdf:RDF>", "refuse", {}>>, <<RdfStart \o N0 \o "<![CDATA[x]]></rdf:RDF>", "refuse", {}>>, <<RdfStart \o N0 \o N0 \o "</rdf:RDF>", "must", {OneTriple}>>,
  <<RdfStart \o " " \o N0 \o " </rdf:RDF>", "must", {OneTriple}>>, <<RdfStart \o "<![CDATA[ ]]>" \o N0 \o "</rdf:RDF>", "open", {}>>, <<RdfStart \o "<!-- <x> & -->" \o N0 \o "<?y?></rdf:RDF>", "must", {OneTriple}>>,
  <<RdfStart \o "<?xml version='1.0'?>" \o N0 \o "</rdf:RDF>", "refuse", {}>>,
  <<RdfStart \o "<rdf:Description rdf:about='http://a/'> <!-- x --><e:p>x</e:p><?y?> </rdf:Description></rdf:RDF>", "must", {OneTriple}>>,
  <<RdfStart \o "<rdf:Description rdf:about='http://a/'><e:p><e:p>x</e:p></e:p></rdf:Description></rdf:RDF>", "refuse", {}>> } }

\* A document in which something is put everywhere.
Here == NodeDoc(<<"typed", "about", "q", "both">>, <<"text", "resource", "typed", "parse">>)
Things == {<<32>>, <<9, 10, 32>>, Cps("<!--x-->"), Cps("<?y?>"), Cps("x"), Cps("<"), Cps(">"), Cps("&"), Cps("&amp;"), Cps("/"), Cps("'"), Cps("="), Cps(":"), Cps("<e:q/>"), Cps("</"), Cps("<![CDATA[]]>")}
Put(i, w) == SubSeq(Here, 1, i) \o w \o SubSeq(Here, i + 1, Len(Here))
Without(i, n) == SubSeq(Here, 1, i) \o SubSeq(Here, i + n + 1, Len(Here))

Chars1 == (0..(IF More THEN 383 ELSE 127)) \cup {160, 215, 233, 767, 768, 8204, 8205, 8232, 12289, 55295, 57344, 65279, 65533, 65534, 65535, 65536, 128512, 1114111}
Places == {"text", "attribute", "cdata", "name", "entity", "hex", "label", "comment"}
RECURSIVE HexText(_)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexText(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE HexText(n \div 16) \o <<HexDigit(n % 16)>>
CharAt(c, w) ==
  LET P1 == CASE w = "text" -> Cps("<e:p>a") \o <<c>> \o Cps("b</e:p>")
              [] w = "attribute" -> Cps("<e:p e:q='a") \o <<c>> \o Cps("b'/>")
              [] w = "cdata" -> Cps("<e:p><![CDATA[a") \o <<c>> \o Cps("b]]></e:p>")
              [] w = "name" -> Cps("<e:p") \o <<c>> \o Cps("q>x</e:p") \o <<c>> \o Cps("q>")
              [] w = "entity" -> Cps("<e:p>a&#") \o NumberText(c) \o Cps(";b</e:p>")
              [] w = "hex" -> Cps("<e:p e:q='a&#x") \o HexText(c) \o Cps(";b'/>")
              [] w = "label" -> Cps("<e:p rdf:nodeID='a") \o <<c>> \o Cps("b'/>")
              [] w = "comment" -> Cps("<e:p>a<!--") \o <<c>> \o Cps("--></e:p>") IN
  Head1 \o Cps("><rdf:Description rdf:about='http://a/'>") \o P1 \o Cps("</rdf:Description></rdf:RDF>")

Known == {Cps(s) : s \in {"http://a/", "urn:c", "http://b/", "http://b/#x", "http://b/d?x", "http://b/d?x#f", "http://b/e/", "http://b/y?z", "http://b/e/y?z", "http://b/y", "http://b/e/e/", "http://b/e/e/y?z", "http://a/?b&c", "http://e/p", "http://e/q", "http://e/T"}} \cup {Rdf(s) : s \in {"type", "value", "Bag", "_1", "_2", "_3", "nil", "first", "rest"}}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
ReadOp(t) == [op |-> "io.read", fmt |-> "xml", t |-> t]
Seeds == {<<"node", k>> : k \in DOMAIN NodeNames} \cup {<<"pair", k>> : k \in {p[1] : p \in Pairs}} \cup {<<"nest", x>> : x \in Inners} \cup {<<"two", x>> : x \in Nodes1}
         \cup {<<w, "">> : w \in {"context", "structure", "put", "cut"}} \cup {<<"base", k>> : k \in Inners1} \cup {<<"char", w>> : w \in Places}
Init == d = <<>> /\ o = [op |-> "reset"]
Next ==
  \/ d = <<>> /\ d' = <<"known">> /\ o' = [op |-> "known", known |-> Listed(Known)]
  \/ d = <<>> /\ d' \in {<<"seed", s>> : s \in Seeds} /\ o' = o
  \/ d # <<>> /\ d[1] = "seed" /\ LET w == d[2][1]  k == d[2][2] IN
     \/ w = "node" /\ \E x \in {x \in NodeSet : x[1] = k} : \E ps \in {<<>>, <<"text">>} : d' = <<"node", x, ps>> /\ o' = ReadOp(NodeDoc(x, ps))
     \/ w = "context" /\ \E x \in Contexts, p \in Keys : d' = <<"node", x, <<p>>>> /\ o' = ReadOp(NodeDoc(x, <<p>>))
     \/ w = "pair" /\ \E p \in {p \in Pairs : p[1] = k} : \E x \in {Plain0, <<"typed", "none", "none", "outer">>} : d' = <<"node", x, p>> /\ o' = ReadOp(NodeDoc(x, p))
     \/ w = "nest" /\ \E p \in Nestings : d' = <<"nest", k, p[1], p[2]>> /\ o' = ReadOp(NestText(k, p[1], p[2]))
     \/ w = "two" /\ \E y \in Nodes1 : d' = <<"two", k, y>> /\ o' = ReadOp(TwoDoc(k, y))
     \/ w = "base" /\ \E x \in {x \in BaseSet : x.inner = k /\ (x.node # "r" \/ x.prop # "r") /\ ~OpenBase(x.root, x.node) /\ ~OpenBase(Under(x.root, x.node), x.prop)} : d' = <<"base", x>> /\ o' = ReadOp(BaseDoc(x))
     \/ w = "structure" /\ \E x \in Structures : d' = <<"structure", x>> /\ o' = ReadOp(x[1])
     \/ w = "put" /\ \E i \in 0..Len(Here), t \in Things : d' = <<"put", i, t>> /\ o' = ReadOp(Put(i, t))
     \/ w = "cut" /\ \E i \in 0..(Len(Here) - 1), n \in {1, 2, 5, 1000} : d' = <<"cut", i, n>> /\ o' = ReadOp(Without(i, n))
     \/ w = "char" /\ \E c \in Chars1 : d' = <<"char", k, c>> /\ o' = ReadOp(CharAt(c, k))
Emitted == o' = o \/ EmitOp(o')

Is(v, what) == ReadXml(o.t, Known) = IF v \in {"must", "may"} THEN <<v, what>> ELSE <<v>>
\* What breaks XML is refused, whatever else there is; what is left open may hide the rest.
Composes ==
  IF d = <<>> THEN TRUE
  ELSE CASE d[1] = "node" -> LET v == NodeWorst(d[2], d[3]) IN Is(v, IF v = "must" THEN NodeMeans(d[2], d[3], <<1>>) ELSE {})
         [] d[1] = "nest" -> LET v == Worst({NodeWorst(d[2], <<d[3]>>), PIs(d[4])}) IN Is(v, IF v = "must" THEN NestMeans(d[2], d[3], d[4]) ELSE {})
         [] d[1] = "two" ->
              LET v == Worst({NodeWorst(d[2], <<"text">>), NodeWorst(d[3], <<"text", "parse">>)}) IN
              Is(v, IF v = "must" THEN NodeMeans(d[2], <<"text">>, <<1>>) \cup NodeMeans(d[3], <<"text", "parse">>, <<2>>) ELSE {})
         [] d[1] = "base" -> LET v == BaseVerdict(d[2]) IN Is(v, IF v \in {"must", "may"} THEN BaseMeans(d[2]) ELSE {})
         [] d[1] = "structure" -> Is(d[2][2], d[2][3])
         [] d[1] = "cut" -> d[3] < 1000 \/ Is("refuse", {})
         [] OTHER -> TRUE
=============================================================================
