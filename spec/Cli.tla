--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command-line tool: one run of it reads a document and writes or     *)
(* draws what it says.                                                     *)
(*                                                                         *)
(* A job says what is to be done: cmd is "convert" or "draw", from and to  *)
(* are syntaxes ("dot" for a drawing), in and out are where documents come *)
(* from and go to.  Whether it may fail, and what it has to have written   *)
(* when it does not, is told by Excused and Right.                         *)
(***************************************************************************)
EXTENDS Io
LOCAL CC == INSTANCE Cps

Ins == {"stdin", "slow", "file", "missing", "directory"}
Outs == {"stdout", "file", "over", "full", "device", "closed", "limit", "nowhere"}
\* Documents come from there, and go there.
Readable(job) == job.in \in {"stdin", "slow", "file"}
Roomy(job) == job.out \in {"stdout", "file", "over"}
\* No document can be written there, not even an empty one.
Unwritable(job) == job.out = "nowhere"
DataSets == {"nq"}
\* A data set is more than a graph.
Fitting(job) == job.from \in DataSets => job.cmd = "convert" /\ job.to \in DataSets

(***************************************************************************)
(* What documents say.  Blank nodes may have other labels afterwards.      *)
(***************************************************************************)
AllLabels(Q) == UNION {LabelsIn(q[1]) \cup LabelsIn(q[2]) \cup LabelsIn(q[4]) : q \in Q}
NamedAll(f, Q) == {<<Named(f, q[1]), Named(f, q[2]), q[3], Named(f, q[4])>> : q \in Q}
RECURSIVE Renaming(_, _, _, _, _)
Renaming(f, open, free, Q, R) ==
  IF open = {} THEN NamedAll(f, Q) = R
  ELSE LET l == CHOOSE l \in open : TRUE  rest == open \ {l} IN
    \E b \in free :
      LET g == f @@ (l :> b) IN
      /\ \A q \in Q : (l \in AllLabels({q}) /\ AllLabels({q}) \cap rest = {}) => NamedAll(g, {q}) \subseteq R
      /\ Renaming(g, rest, free \ {b}, Q, R)
Alike(Q, R) ==
  \/ Q = R
  \/ /\ Cardinality(Q) = Cardinality(R)
     /\ LET q == AllLabels(Q)  r == AllLabels(R) IN Cardinality(q) = Cardinality(r) /\ Renaming(<<>>, q, r, Q, R)

\* Names that every graph has for parts of IRIs.
CommonNames == {<<CC!Cps(m[1]), CC!Cps(m[2])>> : m \in Plain.map}
\* Statements with XML literals, of which drawings show some text.
HasXml(Q) == \E q \in Q : IsXml(q[4])
\* What a document that was written says.
Told4(fmt, t) ==
  CASE fmt \in {"nt", "nq"} -> AnyLines(t, fmt = "nq")
    [] fmt = "json" -> AnyJson(t)
    [] fmt = "xml" -> XmlQuads(t)
    [] fmt = "turtle" -> TurtleQuads(t)
SaysQuads(fmt, t, Q) ==
  IF fmt = "dot" THEN HasXml(Q) \/ Draws(<<>>, TriplesOf(Q), CommonNames, t)
  ELSE LET d == Told4(fmt, t) IN IF d[1] # "must" THEN FALSE ELSE IF HasXml(Q) THEN Alike(XmlRead(Q), XmlRead(d[2])) ELSE Alike(Q, d[2])
\* What a syntax can say.
CanSay(fmt, Q) ==
  fmt = "xml" => \A q \in Q : XmlName(q[3]) /\ \A c \in (IF IsXml(q[4]) THEN {} ELSE TextsIn(q[2]) \cup TextsIn(q[4])) : Range(c) \cap NoXml = {}
\* Labels that XML cannot say: whether there is an error, and what is written, is open.
Sayable(fmt, Q) == fmt = "xml" => \A l \in AllLabels(Q) : IsAnonymous(l) \/ XmlLabel(l)

(***************************************************************************)
(* r is <<exit code, what was written>>; v is what the reader has to make  *)
(* of the document, see Verdict.                                           *)
(***************************************************************************)
Excused(job, v) ==
  \/ ~Readable(job) \/ ~Roomy(job) \/ ~Fitting(job)
  \/ v[1] # "must"
  \/ ~Sayable(job.to, v[2]) \/ ~CanSay(job.to, v[2])
Right(job, v, t) ==
  /\ Readable(job) /\ ~Unwritable(job) /\ Fitting(job) /\ v[1] # "refuse"
  /\ (v[1] # "open" /\ Sayable(job.to, v[2])) => CanSay(job.to, v[2]) /\ SaysQuads(job.to, t, v[2])
CliConf(o) ==
  LET v == Verdict(o.from, o.t, Range(o.known))  code == o.res[1]  w == o.res[2] IN
  IF code = 0 THEN w[1] = "text" /\ Right(o, v, w[2])
  \* A panic and a signal are other codes.
  ELSE code \in {1, 2} /\ Excused(o, v)
CliWant(o) == Verdict(o.from, o.t, Range(o.known))
=============================================================================
