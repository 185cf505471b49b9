---------------------------- MODULE MC_PrefixMap ----------------------------
(* Every state of the maps over a few prefixes and IRIs, and every operation *)
(* on each.                                                                  *)
EXTENDS PrefixMap, Emit
CONSTANTS Prefixes, Iris, NamesUsed, Slots, Voc
VARIABLES s, o

Init == s = Empty /\ o = [op |-> "reset"]
Plain == {"map.empty", "map.set0", "map.remove_default", "map.clear", "map.views", "map.serde"}
Ops(m) ==
  {[op |-> k, m |-> m] : k \in {"map.empty", "map.remove_default", "map.clear", "map.views", "map.serde"}}
  \cup {[op |-> k, m |-> m, p |-> p, i |-> i] : k \in {"map.insert", "map.with"}, p \in Prefixes, i \in Iris}
  \cup {[op |-> k, m |-> m, i |-> i] : i \in Iris,
          k \in {"map.set_default", "map.with_default", "map.get_prefix", "map.compress", "map.compress_ref"}}
  \cup {[op |-> k, m |-> m, p |-> p] : k \in {"map.remove", "map.get_namespace"}, p \in Prefixes}
  \cup {[op |-> k, m |-> m, p |-> p, n |-> n] : p \in Prefixes, n \in NamesUsed,
          k \in {"map.expand", "map.trip"}}
  \cup {[op |-> k, m |-> m, i |-> MakeName(i, n)[2]] : k \in {"map.compress", "map.compress_ref"},
          i \in {i \in Iris : LooksLikeNamespace(i)}, n \in NamesUsed}
  \cup {[op |-> k, m |-> m, v |-> v] : k \in {"map.insert_vocab", "map.with_vocab"}, v \in Voc}
  \cup IF Slots = {0} THEN {} ELSE
       {[op |-> k, m |-> m, to |-> 1 - m] : k \in {"map.clone", "map.eq"}}
Next == \E m \in Slots : \E x \in Ops(m) : o' = x /\ s' = MapsAfter(s, x)
View == s
Emitted == EmitEdge(s, o', s')

AlwaysOneToOne == \A i \in 1..2 : OneToOne(s[i])
\* Expanding and compressing undo each other wherever both are defined.
Inverse ==
  \A k \in 1..2 :
    /\ \A p \in Prefixes, n \in NamesUsed :
         LET e == Expand(s[k], p, n)  w == Lookup(s[k], p) IN
           e # None =>
             IF ~HasFragment(w[2]) \/ Fragment(w[2]) = <<>>
             THEN Compress(s[k], e[2]) = Some(<<p, n>>)
             ELSE Compress(s[k], e[2]) \in {None} \cup {Some(<<q, n>>) : q \in Prefixes}
    /\ \A i \in Iris : \A n \in NamesUsed :
         LET t == IF MakeName(i, n) = None THEN i ELSE MakeName(i, n)[2]  c == Compress(s[k], t) IN
           c # None => Expand(s[k], c[2][1], c[2][2]) = Some(t)
\* What is not bound is not found, what is bound is found from both sides.
Found ==
  \A k \in 1..2 : \A p \in Prefixes, i \in Iris :
    (Lookup(s[k], p) = Some(i)) = (Reverse(s[k], i) = Some(p))

\* The values used.
MCPrefixes == {<<58>>, <<97,58>>, <<98,58>>}
MCIris == {<<104,116,116,112,58,47,47,97,47,120,35>>, <<104,116,116,112,58,47,47,97,47,120,47>>, <<104,116,116,112,58,47,47,97,47,120,47,110>>, <<104,116,116,112,58,47,47,97,47,63,113>>}
MCNames == {<<110>>, <<109,45,49>>}
\* What the vocabularies bind, bound otherwise.
OwnPrefixes == {<<97,58>>, <<114,100,102,58>>}
OwnIris == {<<104,116,116,112,58,47,47,97,47,120,35>>, <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,49,57,57,57,47,48,50,47,50,50,45,114,100,102,45,115,121,110,116,97,120,45,110,115,35>>}
Two == { t \in MCPrefixes : Len(t) = 1 \/ t[1] = 97 }
=============================================================================
