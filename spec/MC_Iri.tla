------------------------------- MODULE MC_Iri -------------------------------
(* Every IRI that the edits reach from a few bases, one of each shape, with  *)
(* every operation on each.                                                  *)
EXTENDS Iri, Emit
CONSTANTS Bases, Opaque, Fragments, Paths, OpaquePaths, NamesUsed
VARIABLES s, o

Op(k) == [op |-> k, t |-> s]
OpF(k, f) == [op |-> k, t |-> s, f |-> f]
Init == s \in Bases \cup Opaque /\ o = [op |-> "iri.observe", t |-> s]

IsOpaque(t) == ~(StartsWith(From(t, SchemeEnd(t) + 1), <<Slash>>))
\* With `path' = Len of the name it stops growing: one name per path is enough.
Short(t) == Len(Path(t)) <= 12
Next ==
  \/ \E k \in {"iri.observe", "iri.trips"} : o' = Op(k) /\ s' = s
  \/ o' = [op |-> "iri.parse", t |-> s, ok |-> TRUE] /\ s' = s
  \/ \E f \in Fragments : o' = OpF("iri.fragment", f) /\ s' = WithFragment(s, f)
  \/ \E p \in IF IsOpaque(s) THEN OpaquePaths ELSE Paths :
       o' = OpF("iri.path", p) /\ s' = WithPath(s, p)
  \/ \E n \in NamesUsed :
       /\ o' = OpF("iri.make", n)
       /\ s' = IF MakeName(s, n) # None /\ Short(s) THEN MakeName(s, n)[2] ELSE s
  \/ \E b \in Bases \cup Opaque : o' = [op |-> "iri.cmp", a |-> s, b |-> b] /\ s' = s
View == s
Emitted == EmitOp(o')

\* An edit changes its own component and no other.
Parts(t) == <<Before(t), Path(t), After(t)>>
Isolation ==
  /\ \A f \in Fragments : LET e == WithFragment(s, f) IN
       /\ Before(e) = Before(s) /\ Path(e) = Path(s) /\ NoFrag(e) = NoFrag(s)
       /\ HasFragment(e) /\ Fragment(e) = Encode(f)
  /\ NoFrag(WithNoFragment(s)) = NoFrag(s) /\ ~HasFragment(WithNoFragment(s))
  /\ \A p \in IF IsOpaque(s) THEN OpaquePaths ELSE Paths :
       Parts(WithPath(s, p)) = <<Before(s), Encode(p), After(s)>>
\* A name that was made splits into the namespace and the name that it was made from.
Ascii(n) == \A i \in 1..Len(n) : n[i] < 128
MadeSplits ==
  \A n \in NamesUsed : Ascii(n) /\ MakeName(s, n) # None =>
    Split(MakeName(s, n)[2]) = Some(<<IF HasFragment(s) THEN WithFragment(s, <<>>) ELSE s, n>>)
\* Every namespace makes names, and what was split is made again from its parts.
NamespacesMake == LooksLikeNamespace(s) => \A n \in NamesUsed : MakeName(s, n) # None
SplitMakes ==
  Split(s) # None =>
    /\ LooksLikeNamespace(Split(s)[2][1])
    /\ MakeName(Split(s)[2][1], Split(s)[2][2]) = Some(s)

\* The values used.
MCBases == {<<104,116,116,112,58,47,47,97,46,111,114,103,47>>, <<104,116,116,112,115,58,47,47,117,64,98,46,111,114,103,58,56,49,47,120,47,121,63,113,61,49,38,114,61,47>>, <<102,111,111,58,47,47,104>>, <<102,105,108,101,58,47,47,47,100,47,101>>, <<102,111,111,58,47,112,47,113>>}
MCOpaque == {<<117,114,110,58,105,115,98,110,58,49,50,51,52>>, <<117,114,110,58,120,47>>, <<109,97,105,108,116,111,58,97,64,98>>}
MCFragments == {<<>>, <<102>>, <<97,46,98,45,99,95,57>>, <<120,47,121>>, <<49,233>>, <<63,113>>, <<46,120>>}
MCPaths == {<<47>>, <<47,97>>, <<47,97,47>>, <<47,97,47,98,46,99>>, <<47,97,47,98,47>>, <<47,49,45,95>>, <<47,120,126,121>>}
MCOpaquePaths == {<<122>>, <<122,47>>, <<122,47,110>>, <<122,58,110>>}
MCNames == {<<110>>, <<78,46,49>>, <<95,97,45,98>>, <<48>>, <<233,183>>}
=============================================================================
