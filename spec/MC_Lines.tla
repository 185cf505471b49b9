------------------------------ MODULE MC_Lines ------------------------------
(***************************************************************************)
(* Documents in N-Triples and N-Quads.  A statement is made of tokens and  *)
(* of gaps between them; each token says itself whether it is one, and     *)
(* what it means, and Read has to come to the same verdict from the text   *)
(* (Composes): it is the inverse of putting tokens together.               *)
(* A line is a statement, a comment, white space, or no statement.         *)
(***************************************************************************)
EXTENDS Lines, Cps, Emit
CONSTANTS Pairs, Length
VARIABLES d, o

\* A token: its text, its node, and "must", "may", "open" or "refuse".
Tok(s, kind, value, v) == <<Cps(s), <<kind, value>>, v>>
Iri(s) == Tok("<" \o s \o ">", "i", Cps(s), "must")
Bad(s) == Tok(s, "x", <<>>, "refuse")
Raw(t, n, v) == <<t, n, v>>
Word(a, c, b) == Cps(a) \o c \o Cps(b)
XsdType(n) == "http://www.w3.org/2001/XMLSchema#" \o n

Iris ==
  { Iri("http://a/"), Iri("urn:c"), Iri("http://a/d?e=f&g#h"), Iri("mailto:x@y"), Iri("http://b/x#y"), Iri("http://a/'()*,;~"),
    Iri(XsdType("string")),
    Tok("<http://a/\\u0062>", "i", Cps("http://a/b"), "must"), Tok("<http://a/\\U00000062>", "i", Cps("http://a/b"), "must"),
    Tok("<\\u0068ttp://a/>", "i", Cps("http://a/"), "must"),
    Tok("<http://a>", "i", Cps("http://a"), "open"), Tok("<HTTP://a/>", "i", Cps("HTTP://a/"), "open"),
    Tok("<http://a/b/../c>", "i", Cps("http://a/b/../c"), "open"),
    Raw(Word("<http://a/", <<233>>, ">"), <<"i", Word("http://a/", <<233>>, "")>>, "open"),
    Tok("<http://a/\\u0020>", "i", Cps("http://a/ "), "open"),
    Bad("<>"), Bad("<a>"), Bad("</a/b>"), Bad("<//a/>"), Bad("<1a:b>"), Bad("<:a>"), Bad("<#a>"), Bad("<http://a/ b>"), Bad("< http://a/>"),
    Bad("<http://a/<b>"), Bad("<http://a/\"b>"), Bad("<http://a/{b>"), Bad("<http://a/}b>"), Bad("<http://a/|b>"), Bad("<http://a/^b>"),
    Bad("<http://a/`b>"), Bad("<http://a/\\b>"), Bad("<http://a/\\u006>"), Bad("<http://a/\\u00gg>"), Bad("<http://a/\\U0000062>"),
    Bad("<http://a/\\uD800>"), Bad("<http://a/\\U00110000>"), Bad("<http://a/\\t>"), Bad("<http://a/>>"), Bad("<<http://a/>>"),
    Bad("<http://a/"), Bad("http://a/"), Bad("a:b"), Bad("a"),
    Raw(Word("<http://a/", <<10>>, ">"), <<"x", <<>>>>, "refuse"), Raw(Word("<http://a/", <<1>>, ">"), <<"x", <<>>>>, "refuse"),
    Raw(Word("<http://a/", <<9>>, ">"), <<"x", <<>>>>, "refuse") }
Blanks ==
  {Tok("_:" \o l, "b", Cps(l), "must") : l \in {"a", "0", "_", "B7", "a.b", "a..b", "a-b", "a-", "a_", "0.0", "aB9"}}
  \cup { Raw(Word("_:", <<233>>, ""), <<"b", <<233>>>>, "must"), Raw(Word("_:a", <<183>>, ""), <<"b", <<97, 183>>>>, "must"),
         Raw(Word("_:a", <<8255>>, "b"), <<"b", <<97, 8255, 98>>>>, "must"), Raw(Word("_:", <<66560>>, ""), <<"b", <<66560>>>>, "must"),
         Tok("_:a:b", "b", Cps("a:b"), "open"), Tok("_::", "b", Cps(":"), "open"),
         Bad("_:"), Bad("_:-a"), Bad("_:.a"), Bad("_: a"), Bad("_a"), Bad(":a"), Bad("_:a."), Bad("_:a/b"), Bad("_:a%41"), Bad("_:a\\u0062"), Bad("[]"),
         Raw(Word("_:", <<183>>, "a"), <<"x", <<>>>>, "refuse"), Raw(Word("_:a", <<215>>, ""), <<"x", <<>>>>, "refuse") }
Lit(t, dt, g) == <<"l", t, dt, g>>
Plain(s, t, v) == Raw(Cps(s), Lit(t, <<>>, <<>>), v)
Literals ==
  { Plain("\"\"", <<>>, "must"), Plain("\"x\"", Cps("x"), "must"), Plain("\" a  b \"", Cps(" a  b "), "must"),
    Plain("\"\\t\\b\\n\\r\\f\\\"\\'\\\\\"", <<9, 8, 10, 13, 12, 34, 39, 92>>, "must"), Plain("\"\\u00e9\"", <<233>>, "must"),
    Plain("\"\\u00E9\\U0001f600\"", <<233, 128512>>, "must"), Plain("\"\\u0000\"", <<0>>, "must"), Plain("\"\\U0010FFFF\"", <<1114111>>, "must"),
    Plain("\"\\\\u0041\"", Cps("\\u0041"), "must"), Plain("\"\\\\\"", Cps("\\"), "must"), Plain("\"'<>{}|^`#.@\"", Cps("'<>{}|^`#.@"), "must"),
    Raw(Word("\"", <<233, 1, 9, 127, 128512, 8232>>, "\""), Lit(<<233, 1, 9, 127, 128512, 8232>>, <<>>, <<>>), "must"),
    Raw(Cps("\"x\"@en"), Lit(Cps("x"), <<>>, Cps("en")), "must"), Raw(Cps("\"x\"@en-GB"), Lit(Cps("x"), <<>>, Cps("en-gb")), "must"),
    Raw(Cps("\"\"@DE"), Lit(<<>>, <<>>, Cps("de")), "must"), Raw(Cps("\"@en\"@fr"), Lit(Cps("@en"), <<>>, Cps("fr")), "must"),
    Raw(Cps("\"x\" @en"), Lit(Cps("x"), <<>>, Cps("en")), "may"), Raw(Cps("\"x\"@de-CH-1996"), Lit(Cps("x"), <<>>, Cps("de-ch-1996")), "must"),
    Raw(Cps("\"x\"@zh-Hant-TW"), Lit(Cps("x"), <<>>, Cps("zh-hant-tw")), "must"), Raw(Cps("\"x\"@zh-cmn-yue-abc-Hans-156"), Lit(Cps("x"), <<>>, Cps("zh-cmn-yue-abc-hans-156")), "must"),
    Raw(Cps("\"x\"@sl-rozaj-biske-1994"), Lit(Cps("x"), <<>>, Cps("sl-rozaj-biske-1994")), "must"), Raw(Cps("\"x\"@en-a-bbb-cc-d-12345678-x-1-abcdefgh"), Lit(Cps("x"), <<>>, Cps("en-a-bbb-cc-d-12345678-x-1-abcdefgh")), "must"),
    Raw(Cps("\"x\"@x-a"), Lit(Cps("x"), <<>>, Cps("x-a")), "must"), Raw(Cps("\"x\"@abcdefgh-AB"), Lit(Cps("x"), <<>>, Cps("abcdefgh-ab")), "must"),
    Raw(Cps("\"x\"@en-abc-def-ghi-jkl"), Lit(Cps("x"), <<>>, Cps("en-abc-def-ghi-jkl")), "open"), Raw(Cps("\"x\"@en-x"), Lit(Cps("x"), <<>>, Cps("en-x")), "open"),
    Raw(Cps("\"x\"@en-a"), Lit(Cps("x"), <<>>, Cps("en-a")), "open"), Raw(Cps("\"x\"@de-1901-1901"), Lit(Cps("x"), <<>>, Cps("de-1901-1901")), "open"), Raw(Cps("\"x\"@en-a-bb-a-cc"), Lit(Cps("x"), <<>>, Cps("en-a-bb-a-cc")), "open"),
    Raw(Cps("\"x\"@i-klingon"), Lit(Cps("x"), <<>>, Cps("i-klingon")), "open"), Raw(Cps("\"x\"@a"), Lit(Cps("x"), <<>>, Cps("a")), "open"),
    Raw(Cps("\"x\"@abcdefghi"), Lit(Cps("x"), <<>>, Cps("abcdefghi")), "open"),
    Raw(Cps("\"x\"^^<" \o XsdType("string") \o ">"), Lit(Cps("x"), Cps(XsdType("string")), <<>>), "must"),
    Raw(Cps("\"01\"^^<" \o XsdType("long") \o ">"), Lit(Cps("01"), Cps(XsdType("long")), <<>>), "must"),
    Raw(Cps("\"http://a/\"^^<" \o XsdType("anyURI") \o ">"), Lit(Cps("http://a/"), Cps(XsdType("anyURI")), <<>>), "must"),
    Raw(Cps("\"true\"^^<" \o XsdType("boolean") \o ">"), Lit(Cps("true"), Cps(XsdType("boolean")), <<>>), "must"),
    Raw(Cps("\"^^\"^^<urn:c>"), Lit(Cps("^^"), Cps("urn:c"), <<>>), "must"),
    Raw(Cps("\"x\"^^ <urn:c>"), Lit(Cps("x"), Cps("urn:c"), <<>>), "may"), Raw(Cps("\"x\" ^^<urn:c>"), Lit(Cps("x"), Cps("urn:c"), <<>>), "may"),
    Bad("\"x"), Bad("x\""), Bad("'x'"), Bad("\"\"\"x\"\"\""), Bad("\"x\"\"y\""), Bad("\"\\x\""), Bad("\"\\\""), Bad("\"\\u12\""), Bad("\"\\u00g0\""),
    Bad("\"\\uD800\""), Bad("\"\\uDC00\""), Bad("\"\\U0000D83D\\U0000DE00\""), Bad("\"\\U00110000\""), Bad("\"\\U0001F60\""), Bad("\"\\U+0000041\""),
    Bad("\"\\a\""), Bad("\"\\0\""), Bad("\"\\x41\""), Bad("\"\\u{41}\""), Bad("\"x\"@"), Bad("\"x\"@1"), Bad("\"x\"@en-"), Bad("\"x\"@-en"), Bad("\"x\"@e_n"),
    Bad("\"x\"@ en"), Bad("\"x\"^^"), Bad("\"x\"^<urn:c>"), Bad("\"x\"^ ^<urn:c>"), Bad("\"x\"^^_:a"), Bad("\"x\"^^<c>"), Bad("\"x\"^^xsd:string"), Bad("\"x\"^^\"y\""),
    Bad("\"x\"@en^^<urn:c>"), Bad("\"x\"^^<urn:c>@en"), Bad("1"), Bad("1.5"), Bad("-1e0"), Bad("true"),
    Raw(Word("\"a", <<10>>, "b\""), <<"x", <<>>>>, "refuse"), Raw(Word("\"a", <<13>>, "b\""), <<"x", <<>>>>, "refuse") }
None == <<<<>>, <<"none">>, "must">>
KindIn(t, kinds) == t[3] = "refuse" \/ t[2][1] \in kinds
Nodes == Iris \cup Blanks
Any1 == Nodes \cup Literals

\* Gaps: a text and whether the grammar has it between tokens.
Gaps == {<<<<32>>, TRUE>>, <<<<>>, TRUE>>, <<<<9, 32>>, TRUE>>, <<<<10>>, FALSE>>, <<Word(" #c", <<13>>, "")  , FALSE>>, <<<<13, 10, 10>>, FALSE>>}
Space == <<<<32>>, TRUE>>
Ends == {<<Cps("."), "must">>, <<<<46, 10>>, "must">>, <<Word(". #c", <<10>>, ""), "must">>, <<Cps(".# ."), "must">>, <<Cps(". "), "must">>,
         <<<<46, 13>>, "must">>, <<<<>>, "refuse">>, <<<<10>>, "refuse">>, <<Cps(".."), "refuse">>, <<Cps(",<urn:c>."), "refuse">>, <<Cps(";."), "refuse">>, <<Cps(". x"), "refuse">>}
Dot == <<Cps("."), "must">>

\* A statement: subject, predicate, object, name, the gaps after each and its end.
Slots(S, P, O, N1) == {[s |-> a, p |-> b, o |-> c, n |-> e] : a \in S, b \in P, c \in O, e \in N1}
DefaultGaps == [i \in 1..4 |-> Space]
TextOf(x) == x.s[1] \o x.g[1][1] \o x.p[1] \o x.g[2][1] \o x.o[1] \o x.g[3][1] \o x.n[1] \o (IF x.n = None THEN <<>> ELSE x.g[4][1]) \o x.e[1]

S0 == Iri("http://a/")
B0 == Tok("_:a", "b", Cps("a"), "must")
P0 == Iri("urn:p")
O0 == Raw(Cps("\"x\""), Lit(Cps("x"), <<>>, <<>>), "must")
N0 == Iri("urn:g")
Full(x, gaps, e) == [s |-> x.s, p |-> x.p, o |-> x.o, n |-> x.n, g |-> gaps, e |-> e]
Language == Raw(Cps("\"x\"@en"), Lit(Cps("x"), <<>>, Cps("en")), "must")
StatementSets == {<<w, 0, 0>> : w \in {"subject", "predicate", "object", "name", "tight"}} \cup {<<"apart", i, j>> : i \in 1..4, j \in 2..4} \cup {<<"end", i, i>> : i \in 1..4}
                 \cup (IF Pairs THEN {<<w, 0, 0>> : w \in {"sp", "so", "po", "on"}} ELSE {})
StatementsOf(w) ==
  LET which == w[1] IN
  CASE which = "subject" -> {Full(x, DefaultGaps, Dot) : x \in Slots(Any1, {P0}, {O0, B0}, {None, N0})}
    [] which = "predicate" -> {Full(x, DefaultGaps, Dot) : x \in Slots({S0, B0}, Any1, {O0}, {None, N0})}
    [] which = "object" -> {Full(x, DefaultGaps, Dot) : x \in Slots({S0, B0}, {P0}, Any1, {None, N0})}
    [] which = "name" -> {Full(x, DefaultGaps, Dot) : x \in Slots({S0}, {P0}, {O0, B0, S0}, Any1)}
    [] which = "sp" -> {Full(x, DefaultGaps, Dot) : x \in Slots(Nodes, Iris, {O0}, {None})}
    [] which = "so" -> {Full(x, DefaultGaps, Dot) : x \in Slots(Nodes, {P0}, Any1, {None})}
    [] which = "po" -> {Full(x, DefaultGaps, Dot) : x \in Slots({S0}, Iris, Any1, {None})}
    [] which = "on" -> {Full(x, DefaultGaps, Dot) : x \in Slots({B0}, {P0}, Any1, Nodes)}
    [] which = "tight" -> {Full(x, [i \in 1..4 |-> <<<<>>, TRUE>>], Dot) : x \in Slots({t \in Nodes : t[3] # "refuse"}, {P0}, {t \in Any1 : t[3] # "refuse"}, {None, N0, B0})}
    [] OTHER -> {Full(x, [DefaultGaps EXCEPT ![w[2]] = a, ![w[3]] = IF which = "end" THEN a ELSE b], e) :
                   x \in Slots({S0, B0}, {P0}, {O0, B0, Language}, {None, N0, B0}), a \in Gaps,
                   b \in (IF which = "end" \/ w[2] >= w[3] THEN {Space} ELSE Gaps), e \in (IF which = "end" THEN Ends ELSE {Dot})}

\* Lines.
St(a, b, c, n) == Full([s |-> a, p |-> b, o |-> c, n |-> n], DefaultGaps, Dot)
X1 == St(S0, P0, O0, None)
X2 == St(B0, P0, Raw(Cps("\"x\"@en"), Lit(Cps("x"), <<>>, Cps("en")), "must"), N0)
X3 == St(B0, P0, B0, B0)
\* A line: its text, whether it is right ("st"), wrong ("x") or two ("y"), and its statements.
LineOf(x) == <<TextOf(x), "st", <<x>>>>
Lines == { LineOf(X1), LineOf(X2), LineOf(X3), <<Cps(" "), "st", <<>>>>, <<Cps("# <a> ."), "st", <<>>>>, <<TextOf(X1) \o Cps("#"), "st", <<X1>>>>,
           <<Cps(" ") \o TextOf(X3) \o <<9>>, "st", <<X3>>>>, <<<<>>, "st", <<>>>>, <<Cps("<urn:c> <urn:c>"), "x", <<>>>>,
           <<Cps("."), "x", <<>>>>, <<Cps("@prefix a: <urn:a> ."), "x", <<>>>>, <<TextOf(X1) \o Cps(" ") \o TextOf(X3), "y", <<X1, X3>>>> }
LineEnds == {<<10>>, <<13, 10>>, <<13>>, <<10, 10>>}
Range(f) == {f[i] : i \in DOMAIN f}
RECURSIVE Joined(_, _)
Joined(ls, e) == IF ls = <<>> THEN <<>> ELSE Head(ls)[1] \o (IF Len(ls) = 1 THEN <<>> ELSE e) \o Joined(Tail(ls), e)

KnownIris == {t[2][2] : t \in {t \in Iris : t[3] = "must"}} \cup {t[2][3] : t \in {t \in Literals : t[3] \in {"must", "may"} /\ Len(t[2]) = 4}} \cup {Cps("urn:p"), Cps("urn:g")}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
KnownSeq == Listed(KnownIris \ {<<>>})

\* The IRIs that are known are in an operation of their own.
ReadOp(t, fmt) == [op |-> "io.read", fmt |-> fmt, t |-> t]
Init == d = <<>> /\ o = [op |-> "reset"]
Next ==
  \/ d = <<>> /\ d' = <<"known">> /\ o' = [op |-> "known", known |-> KnownSeq]
  \/ d = <<>> /\ d' \in ({<<"sts", f, x>> : f \in {"nt", "nq"}, x \in StatementSets}
                           \cup {<<"lss", f, x, e>> : f \in {"nt", "nq"}, x \in Lines, e \in LineEnds}) /\ UNCHANGED o
  \/ /\ d # <<>> /\ d[1] = "sts"
     /\ \E x \in StatementsOf(d[3]) : d' = <<"st", x, d[2]>> /\ o' = ReadOp(TextOf(x), d[2])
  \/ /\ d # <<>> /\ d[1] = "lss"
     /\ \E n \in 0..(Length - 1) : \E ls \in [1..n -> Lines] : \E z \in BOOLEAN :
          LET all == <<d[3]>> \o ls  e == d[4] IN
            d' = <<"ls", all, d[2]>> /\ o' = ReadOp(Joined(all, e) \o (IF z THEN e ELSE <<>>), d[2])
Emitted == o' = o \/ EmitOp(o')

\* The verdict on tokens that are put together.
Quad(x) == <<x.n[2], x.s[2], x.p[2][2], x.o[2]>>
StVerdict(x, f) ==
  LET toks == {x.s, x.p, x.o, x.n} IN
  IF \/ \E t \in toks : t[3] = "refuse" \/ x.e[2] = "refuse"
     \/ x.s[2][1] = "l" \/ x.p[2][1] # "i" \/ x.n[2][1] = "l" \/ (f = "nt" /\ x.n # None)
  THEN "refuse"
  ELSE IF \E t \in toks : t[3] = "open" THEN "open"
  ELSE IF (\E t \in toks : t[3] = "may") \/ (\E i \in 1..4 : ~x.g[i][2] /\ (i < 4 \/ x.n # None)) THEN "may"
  ELSE "must"
\* A label and what is behind it are one when there is no gap; a literal without its data type finds one.
Together(x) ==
  \/ x.o[1][Len(x.o[1])] = 94 /\ x.n # None /\ x.n[1][1] = 60
  \/ x.g[1][1] = <<>> /\ x.s[2][1] = "b" /\ x.p[1][1] # 60
  \/ x.g[3][1] = <<>> /\ x.o[2][1] = "b" /\ x.n # None /\ x.n[1][1] # 60
LsVerdict(ls, f) ==
  LET vs == UNION {{ls[i][2]} \cup {StVerdict(x, f) : x \in Range(ls[i][3])} : i \in DOMAIN ls} IN
  IF {"x", "refuse"} \cap vs # {} THEN "refuse" ELSE IF "y" \in vs THEN "may" ELSE "must"
LsQuads(ls) == UNION {{Quad(x) : x \in Range(ls[i][3])} : i \in DOMAIN ls}
\* There is a text.
Text(x) == IF x = <<>> THEN <<>> ELSE IF x[1] \in {"st", "ls"} THEN x ELSE <<>>
Verdict == Read(o.t, o.fmt = "nq", KnownIris)
Composes ==
  IF Text(d) = <<>> THEN TRUE
  ELSE IF d[1] = "st"
  THEN IF Together(d[2]) THEN TRUE
       ELSE Verdict = LET v == StVerdict(d[2], d[3]) IN IF v \in {"must", "may"} THEN <<v, {Quad(d[2])}>> ELSE <<v>>
  ELSE Verdict = LET v == LsVerdict(d[2], d[3]) IN IF v \in {"must", "may"} THEN <<v, LsQuads(d[2])>> ELSE <<v>>
\* White space before and behind changes nothing.
Padded == IF Text(d) = <<>> THEN TRUE ELSE Read(<<10, 32>> \o o.t \o <<10, 9>>, o.fmt = "nq", KnownIris) = Verdict
=============================================================================
