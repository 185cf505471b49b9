----------------------------- MODULE MC_Literal -----------------------------
(* Every text over a small alphabet: its escaped form can stand between      *)
(* quotes and unescapes to the text; every few bytes in hex and base 64.     *)
EXTENDS Literals, Emit
CONSTANTS Alphabet, N, Bytes
VARIABLES s, o

Type == <<104,116,116,112,58,47,47,116,47>>
Init == s = <<>> /\ o = [op |-> "reset"]
Hows(n) == IF n <= 3 THEN {"plain", "string", "str", "language", "type", "type_iri"} ELSE {"plain"}
TextOp(t, how) == [op |-> "lit.text", t |-> t, how |-> how, dt |-> Type]
Ops(t) == {TextOp(t, h) : h \in Hows(Len(t))}
          \cup (IF Len(t) > 3 THEN {} ELSE {[op |-> "lit.text", t |-> t, how |-> "type", dt |-> Xsd(x)] : x \in {"string", "boolean"}})
          \cup {[op |-> "lit.decode", t |-> t, dt |-> d] : d \in {Xsd("hexBinary"), Xsd("base64Binary"), Xsd("string")}}
Values == UNION {[1..n -> Bytes] : n \in 0..3}
Next ==
  \/ Len(s) < N /\ \E c \in Alphabet : s' = Append(s, c) /\ \E x \in Ops(s') : o' = x
  \/ s = <<>> /\ s' = s /\ \E x \in Ops(<<>>) : o' = x
  \/ s = <<>> /\ s' = s /\ \E v \in Values : \E h \in {"hex", "base64"} : o' = [op |-> "lit.bytes", v |-> v, how |-> h]
  \/ s = <<>> /\ s' = s /\ \E d \in Known \cup {Type, XsdNs, XsdNs \o <<120>>, RdfNs} : o' = [op |-> "lit.types", dt |-> d]
View == s
Emitted == EmitOp(o')

Printable == \A i \in 1..Len(Escape(s)) : ~Control(Escape(s)[i])
\* A quote is always after an odd number of backslashes.
RECURSIVE Slashes(_, _)
Slashes(t, i) == IF i = 0 THEN 0 ELSE IF t[i] # Backslash THEN 0 ELSE 1 + Slashes(t, i - 1)
Closed ==
  LET e == Escape(s) IN
  /\ \A i \in 1..Len(e) : e[i] = Quote => Slashes(e, i - 1) % 2 = 1
  /\ (Slashes(e, Len(e)) % 2) = 0
Inverse == Unescape(Escape(s)) = s
Binary == s = <<>> => \A v \in Values : FromHex(HexOf(v)) = Some(v) /\ FromBase64(Base64Of(v)) = Some(v)
=============================================================================
