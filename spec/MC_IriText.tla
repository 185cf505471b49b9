---------------------------- MODULE MC_IriText ----------------------------
(* Every text of at most N characters over an alphabet that has what makes   *)
(* a text an absolute IRI or not: brackets, letters, digits and separators.  *)
EXTENDS Iri, Emit
CONSTANTS Alphabet, N
VARIABLES s, o

Read(t) == [op |-> "iri.parse", t |-> t, ok |-> OwnForm(t)]
Init == s = <<>> /\ o = Read(<<>>)
Next == /\ Len(s) < N
        /\ \E c \in Alphabet : s' = Append(s, c) /\ o' = Read(s')
View == s
\* What is neither refused nor its own canonical form is left to the parser of URLs.
Emitted == OwnForm(s') \/ Refused(s') => EmitOp(o')

\* Brackets come in one pair or not at all.
OnePair == Refused(s) => Refused(Bracket(s)) \/ s = <<>> \/ Inner(Bracket(s)) = s
Brackets == /\ (HasScheme(s) => ~Refused(Bracket(s)) /\ Refused(Bracket(Bracket(s))))
            /\ (HasScheme(s) /\ ~EndsIn(s, 62) => Refused(<<60>> \o s))
Disjoint == ~(OwnForm(s) /\ Refused(s))
=============================================================================
