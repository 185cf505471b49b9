------------------------------ MODULE MC_Names ------------------------------
(* Every text of at most N code points over an alphabet that has one or more *)
(* of each class that the grammar tells apart.                               *)
EXTENDS Names, Emit
CONSTANTS Alphabet, N
VARIABLES s, o

Init == s = <<>> /\ o \in {[op |-> k, t |-> <<>>] : k \in {"name.ns", "name.named", "name.name", "name.local"}}
Next ==
  /\ Len(s) < N
  /\ \E c \in Alphabet, k \in {"name.ns", "name.named", "name.name", "name.local"} :
       s' = Append(s, c) /\ o' = [op |-> k, t |-> s']
View == s
Emitted == EmitOp(o')

\* A text is at most one of a namespace, a name and a local name; the empty text is none.
Disjoint ==
  /\ ~(IsOk(Namespace(s)) /\ IsOk(Name(s)))
  /\ ~(IsOk(LocalName(s)) /\ (IsOk(Namespace(s)) \/ IsOk(Name(s))))
\* The parts of a local name are what it was written from, and are themselves in the grammar.
LocalParts ==
  IsOk(LocalName(s)) =>
    LET l == LocalName(s)[2] IN
      /\ l[1] \o l[2] = s
      /\ IsOk(Namespace(l[1])) /\ IsOk(Name(l[2]))
\* A namespace and a name always make a local name that reads back as the two.
Composed ==
  \A i \in 0..Len(s) :
    LET p == Upto(s, i)  n == From(s, i + 1) IN
      IsOk(Namespace(p)) /\ IsOk(Name(n)) => LocalName(s) = <<"ok", <<p, n>>>>
\* Adding the separator that is there already changes nothing.
SeparatorOnce == IsOk(Namespace(s)) => Separated(s) = s
=============================================================================
