-------------------------------- MODULE Cps ---------------------------------
(* Strings of printable ASCII characters as texts.                           *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chars == {SubSeq(Printable, i, i) : i \in 1..Len(Printable)}
CodeOf == [c \in Chars |-> 31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
Cps(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
=============================================================================
