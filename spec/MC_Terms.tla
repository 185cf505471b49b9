------------------------------ MODULE MC_Terms ------------------------------
(* Every term of every vocabulary; no two names of one have the same term.   *)
EXTENDS Terms, FiniteSets, Emit
VARIABLES s, o

Init == s = <<>> /\ o = [op |-> "reset"]
Ops ==
  {[op |-> "names.of", v |-> v] : v \in DOMAIN Namespaces}
  \cup {[op |-> "names.vocabulary", v |-> v] : v \in V!Published}
  \cup {[op |-> "names.stage", v |-> v] : v \in Stages}
Next ==
  \/ s = <<>> /\ s' = s /\ \E x \in Ops : o' = x
  \/ s = <<>> /\ \E v \in DOMAIN Namespaces : \E f \in DOMAIN VocabularyOf(v) :
       s' = <<v, f>> /\ o' = [op |-> "names.term", v |-> v, f |-> f]
  \/ s = <<>> /\ \E v \in DOMAIN Declared : \E f \in DOMAIN Declared[v][3] :
       s' = <<>> /\ o' = [op |-> "names.declared", v |-> v, f |-> f]
View == s
Emitted == EmitOp(o')
Distinct ==
  s # <<>> => \A f \in DOMAIN VocabularyOf(s[1]) :
    Means(s[1], f) /\ TermIri(s[1], f) = TermIri(s[1], s[2]) => f = s[2]
\* Every namespace ends where a name can follow.
Separate == \A v \in DOMAIN Namespaces : \A w \in DOMAIN Namespaces : Namespaces[v] = Namespaces[w] => v = w
=============================================================================
