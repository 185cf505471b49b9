------------------------------ MODULE MC_Json -------------------------------
(***************************************************************************)
(* Documents in RDF/JSON: every combination of the members that an object  *)
(* may have, right, wrong or absent; subjects and predicates of all kinds; *)
(* every character in a string and behind a backslash; and the structure   *)
(* of JSON itself, right and wrong.  A document is made from a tree whose  *)
(* verdict is known, and ReadJson has to come to it from the text.         *)
(***************************************************************************)
EXTENDS JsonText, Emit
CONSTANT More
VARIABLES d, o

Quoted(t) == <<34>> \o t \o <<34>>
Q(s) == Quoted(Cps(s))
\* A part: its text, what it says and its verdict.
Part(t, what, v) == <<t, what, v>>
Right(s) == Part(Q(s), Cps(s), "must")
Wrong(t) == Part(t, <<>>, "refuse")
Not(s) == Part(Q(s), Cps(s), "refuse")
Absent == Part(<<0>>, <<>>, "absent")

Iris == {Right("http://a/"), Right("urn:c"), Right("http://a/d?e=f&g#h"), Right("http://b/x#y"),
         Part(Quoted(Cps("http:\\/\\/a\\/")), Cps("http://a/"), "must"), Part(Quoted(Cps("urn:\\u0063")), Cps("urn:c"), "must"),
         Part(Q("http://a"), Cps("http://a"), "open")}
NoIris == {Not("a"), Not(""), Not("/a/b"), Not("<urn:c"), Not("#a")}
BlanksOk == {Part(Q("_:a"), Cps("a"), "must"), Part(Q("_:0.b-c"), Cps("0.b-c"), "must"), Part(Quoted(Cps("_:") \o <<233>>), <<233>>, "must"), Part(Quoted(Cps("\\u005f:B1")), Cps("B1"), "must")}
BlanksNo == {Not("_:"), Not("_:-a"), Not("_:a."), Not("_:a b"), Not("_:a/b")}
NotText == {Wrong(Cps("1")), Wrong(Cps("null")), Wrong(Cps("true")), Wrong(Cps("[]")), Wrong(Cps("{}")), Wrong(Cps("[\"en\"]"))}
Texts == {Part(Q("x"), Cps("x"), "must"), Part(Q(""), <<>>, "must"), Part(Quoted(Cps("\\\"\\\\\\/\\b\\f\\n\\r\\t")), <<34, 92, 47, 8, 12, 10, 13, 9>>, "must"),
          Part(Quoted(Cps("\\u00e9\\uD83D\\uDE00")), <<233, 128512>>, "must"), Part(Quoted(<<233, 128512, 127>>), <<233, 128512, 127>>, "must"),
          Part(Q("_:a"), Cps("_:a"), "must"), Part(Quoted(Cps("\\\\u0041")), Cps("\\u0041"), "must")}
\* Strings that are none.
Broken == {Wrong(Quoted(Cps("\\x"))), Wrong(Quoted(Cps("\\u00g0"))), Wrong(Quoted(Cps("\\uD83D"))), Wrong(Quoted(Cps("\\uDE00\\uD83D"))), Wrong(Quoted(Cps("\\u12"))),
           Wrong(Quoted(<<10>>)), Wrong(Quoted(<<1>>)), Wrong(Cps("\"x")), Wrong(Cps("'x'")), Wrong(Cps("x")), Wrong(Quoted(Cps("\\U00000041"))), Wrong(Quoted(Cps("\\'")))}
Types == {Right("uri"), Right("bnode"), Right("literal"), Wrong(Q("URI")), Wrong(Q("iri")), Wrong(Q("")), Absent, Part(Quoted(Cps("ur\\u0069")), Cps("uri"), "must")}
         \cup (IF More THEN NotText ELSE {Wrong(Cps("1"))})
Langs == {Right("en"), Right("en-GB"), Absent} \cup (IF More THEN NotText ELSE {Wrong(Cps("1"))}) \cup {Part(Q("abcdefghi"), Cps("abcdefghi"), "open")}
Datatypes == {Right("http://www.w3.org/2001/XMLSchema#string"), Right("urn:c"), Absent, Wrong(Q("c"))} \cup (IF More THEN NotText ELSE {Wrong(Cps("1"))})
Values == Iris \cup NoIris \cup BlanksOk \cup BlanksNo \cup NotText \cup Texts \cup Broken \cup {Absent}

RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o Cps(",") \o Joined(Tail(ts))
Members(ms) == Joined(SelectSeq([i \in DOMAIN ms |-> IF ms[i][2] = Absent THEN <<>> ELSE Q(ms[i][1]) \o Cps(":") \o ms[i][2][1]], LAMBDA t : t # <<>>))
ObjectText(x) == Cps("{") \o Members(<<<<"value", x.value>>, <<"type", x.type>>, <<"lang", x.lang>>, <<"datatype", x.datatype>>>>) \o Cps("}")
Objects(T, V, G, D) == {[type |-> t, value |-> v, lang |-> g, datatype |-> e] : t \in T, v \in V, g \in G, e \in D}
Document(s, p, ot) == Cps("{") \o s \o Cps(":{") \o p \o Cps(":[") \o ot \o Cps("]}}")

S0 == Right("http://a/")
P0 == Right("urn:c")
ObjectSets == {"members", "values"}
ObjectsOf(w) ==
  IF w = "members" THEN Objects(Types, {Right("x"), Right("http://a/"), Right("_:a"), Absent}, Langs, Datatypes)
  ELSE Objects({Right("uri"), Right("bnode"), Right("literal")}, Values, {Absent}, {Absent}) \cup Objects({Right("literal")}, Values, {Right("en"), Absent}, {Right("urn:c"), Absent})
\* The verdict on an object, from its parts.
TextVerdict(p) == IF p[3] = "absent" THEN "must" ELSE p[3]
IsText(p) == p[1][1] = 34 /\ p \notin Broken
ObjectIs(x) ==
  IF x.type[3] # "must" \/ x.value = Absent \/ ~IsText(x.value) THEN "refuse"
  ELSE LET ty == x.type[2]
           more == IF x.lang = Absent /\ x.datatype = Absent THEN "must" ELSE "open" IN
    \* A member that is no text spoils the document only if the text is not JSON, or where it means something.
    IF ty = Cps("literal")
    THEN Worst({TextVerdict(x.lang), TextVerdict(x.datatype), IF x.lang # Absent /\ x.datatype # Absent THEN "open" ELSE "must"})
    ELSE IF ty = Cps("uri")
    THEN Worst({more, IF x.value \in Iris THEN x.value[3] ELSE IF x.value \in BlanksOk \cup BlanksNo THEN "refuse" ELSE IF HasScheme(x.value[2]) THEN "open" ELSE "refuse"})
    ELSE Worst({more, IF x.value \in BlanksOk THEN "must" ELSE IF x.value \in BlanksNo THEN "refuse" ELSE IF x.value[2] = Cps("_:a") THEN "must" ELSE "open"})
NodeOf(x) ==
  CASE x.type[2] = Cps("uri") -> <<"i", x.value[2]>>
    [] x.type[2] = Cps("bnode") -> <<"b", IF x.value[2] = Cps("_:a") THEN Cps("a") ELSE x.value[2]>>
    [] OTHER -> <<"l", IF x.value \in BlanksOk THEN Cps("_:") \o x.value[2] ELSE x.value[2],
                  IF x.datatype = Absent THEN <<>> ELSE x.datatype[2], IF x.lang = Absent THEN <<>> ELSE Lowered(x.lang[2])>>

\* Subjects and predicates.
Subjects == Iris \cup NoIris \cup BlanksOk \cup BlanksNo \cup Broken \cup NotText
O1 == ObjectText([type |-> Right("uri"), value |-> Right("urn:c"), lang |-> Absent, datatype |-> Absent])
N1 == <<"i", Cps("urn:c")>>
SubjectNode(s) == IF s \in BlanksOk THEN <<"b", s[2]>> ELSE <<"i", s[2]>>
PredicateIs(p) == IF p \in Iris THEN p[3] ELSE "refuse"

\* Structures: a text with a verdict; those with "must" say what Two says.
One == Document(Q("http://a/"), Q("urn:c"), O1)
OneQuad == <<NoName, <<"i", Cps("http://a/")>>, Cps("urn:c"), N1>>
Apos(s) == LET c == Cps(s) IN [i \in DOMAIN c |-> IF c[i] = 39 THEN 34 ELSE c[i]]
Ob == "{'type':'uri','value':'urn:c'}"
Bl == "{'type':'bnode','value':'_:a'}"
BlQuad == <<NoName, <<"i", Cps("http://a/")>>, Cps("urn:c"), <<"b", Cps("a")>>>>
Other(s, p) == <<NoName, <<"i", Cps(s)>>, Cps(p), N1>>
Structures ==
  { <<Apos(x[1]), x[2], x[3]>> : x \in {
    <<"{}", "must", {}>>, <<" { } ", "must", {}>>, <<"", "refuse", {}>>, <<" ", "refuse", {}>>, <<"[]", "refuse", {}>>, <<"null", "refuse", {}>>, <<"1", "refuse", {}>>, <<"'x'", "refuse", {}>>,
    <<"{", "refuse", {}>>, <<"{}}", "refuse", {}>>, <<"{}{}", "refuse", {}>>, <<"{},", "refuse", {}>>, <<"{,}", "refuse", {}>>, <<"/**/{}", "refuse", {}>>,
    <<"{'http://a/':{}}", "must", {}>>, <<"{'_:a':{}}", "must", {}>>, <<"{'http://a/':{},}", "refuse", {}>>, <<"{'http://a/':[]}", "refuse", {}>>, <<"{'http://a/':null}", "refuse", {}>>,
    <<"{'http://a/' {}}", "refuse", {}>>, <<"{http://a/:{}}", "refuse", {}>>, <<"{'http://a/':{'urn:c':[]}}", "must", {}>>, <<"{'http://a/':{'urn:c':{}}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':" \o Ob \o "}}", "refuse", {}>>, <<"{'http://a/':{'urn:c':'x'}}", "refuse", {}>>, <<"{'http://a/':{'urn:c':[[]]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':['urn:c']}}", "refuse", {}>>, <<"{'http://a/':{'urn:c':[null]}}", "refuse", {}>>, <<"{'http://a/':{'urn:c':[1,]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o "]}}", "must", {OneQuad}>>, <<"{'http://a/':{'urn:c':[" \o Ob \o ",]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o " " \o Ob \o "]}}", "refuse", {}>>, <<"{'http://a/':{'urn:c':[" \o Ob \o "," \o Ob \o "]}}", "must", {OneQuad}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o " , " \o Bl \o "]}}", "must", {OneQuad, BlQuad}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o "]},'urn:c':{'urn:c':[" \o Ob \o "]}}", "must", {OneQuad, Other("urn:c", "urn:c")}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o "],'http://a/':[" \o Ob \o "]}}", "must", {OneQuad, Other("http://a/", "http://a/")}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o "]},'http://a/':{'http://a/':[" \o Ob \o "]}}", "open", {}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o "],'urn:c':[" \o Bl \o "]}}", "open", {}>>,
    <<"{'http://a/':{'urn:c':[{'type':'uri','value':'urn:c','value':'urn:d'}]}}", "open", {}>>,
    <<"{'http://a/':{'urn:c':[{'type':'uri','value':'urn:c','more':[1,-0.5e+3,{'a':null}]}]}}", "open", {}>>,
    <<"{'http://a/':{'urn:c':[{'type':'uri','value':'urn:c','more':01}]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[{'type':'uri','value':'urn:c','more':+1}]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[{'type':'uri','value':'urn:c','more':1.}]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[{'type':'uri','value':'urn:c','more':NaN}]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[{'type':'uri';'value':'urn:c'}]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[{'type' 'uri','value':'urn:c'}]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[{}]}}", "refuse", {}>>, <<"{'http://a/':{'urn:c':[{'type':'uri','value':'urn:c'}]}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o "]},'x':{}}", "refuse", {}>>, <<"{'http://a/':{'urn:c':[" \o Ob \o "]},'urn:c':{'x':[]}}", "refuse", {}>>,
    <<"{'http://a/':{'urn:c':[" \o Ob \o "]},'urn:c':{'urn:c':[" \o Ob \o ",{}]}}", "refuse", {}>>,
    <<"{'x:y':{}}", "open", {}>> } }
\* White space at every place of a document: the document is cut there.
InString(i) == (Cardinality({k \in 1..i : One[k] = 34}) % 2) = 1

\* Every character in a string, and behind a backslash.
Chars1 == (0..(IF More THEN 383 ELSE 255)) \cup {8232, 55295, 57344, 65279, 65533, 65534, 65535, 65536, 128512, 1114111}
CharAt(c, how) ==
  LET t == IF how = "raw" THEN <<c>> ELSE IF how = "escape" THEN <<92, c>> ELSE IF how = "hex" THEN Cps("\\u004") \o <<c>> ELSE Cps("\\uD83") \o <<c>> \o Cps("\\uDE00") IN
  Document(Q("http://a/"), Q("urn:c"), ObjectText([type |-> Right("literal"), value |-> Part(Quoted(Cps("a") \o t \o Cps("b")), <<>>, ""), lang |-> Absent, datatype |-> Absent]))

Known == {p[2] : p \in {p \in Iris \cup Datatypes : p[3] = "must"}}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
ReadOp(t) == [op |-> "io.read", fmt |-> "json", t |-> t]
Init == d = <<>> /\ o = [op |-> "reset"]
Next ==
  \/ d = <<>> /\ d' = <<"known">> /\ o' = [op |-> "known", known |-> Listed(Known)]
  \/ d = <<>> /\ d' \in {<<"seed", w>> : w \in {"members", "values", "subjects", "structures", "white", "raw", "escape", "hex", "pair"}} /\ o' = o
  \/ d # <<>> /\ d[1] = "seed" /\
     \/ d[2] \in ObjectSets /\ \E x \in ObjectsOf(d[2]) : d' = <<"object", x>> /\ o' = ReadOp(Document(Q("http://a/"), Q("urn:c"), ObjectText(x)))
     \/ d[2] = "subjects" /\ \E s, p \in Subjects : d' = <<"subject", s, p>> /\ o' = ReadOp(Document(s[1], p[1], O1))
     \/ d[2] = "structures" /\ \E x \in Structures : d' = <<"structure", x>> /\ o' = ReadOp(x[1])
     \/ d[2] = "white" /\ \E i \in 0..Len(One) : \E w \in {<<32>>, <<9, 10, 13, 32>>, <<12>>, <<160>>, <<11>>, <<8232>>, <<65279>>} :
          d' = <<"white", i, w>> /\ o' = ReadOp(SubSeq(One, 1, i) \o w \o SubSeq(One, i + 1, Len(One)))
     \/ d[2] \in {"raw", "escape", "hex", "pair"} /\ \E c \in Chars1 : d' = <<"char", d[2], c>> /\ o' = ReadOp(CharAt(c, d[2]))
Emitted == o' = o \/ EmitOp(o')

Verdict == ReadJson(o.t, Known)
Composes ==
  IF d = <<>> THEN TRUE
  ELSE CASE d[1] = "object" ->
              LET v == ObjectIs(d[2]) IN
              Verdict = IF v = "must" THEN <<"must", {<<NoName, <<"i", Cps("http://a/")>>, Cps("urn:c"), NodeOf(d[2])>>}>> ELSE <<v>>
         [] d[1] = "subject" ->
              LET s == d[2]  p == d[3]
                  v == Worst({IF s \in BlanksOk \cup Iris THEN s[3] ELSE "refuse", PredicateIs(p)}) IN
              Verdict = IF v = "must" THEN <<"must", {<<NoName, SubjectNode(s), p[2], N1>>}>> ELSE <<v>>
         [] d[1] = "structure" -> Verdict = IF d[2][2] = "must" THEN <<"must", d[2][3]>> ELSE <<d[2][2]>>
         [] d[1] = "white" ->
              IF InString(d[2]) THEN TRUE
              ELSE Verdict = IF Range(d[3]) \subseteq White THEN <<"must", {OneQuad}>> ELSE <<"refuse">>
         [] OTHER -> TRUE
=============================================================================
