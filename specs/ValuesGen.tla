------------------------------ MODULE ValuesGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLE hist
R(S) == RandomElement(S)
Op(h) == [op |-> R({"set", "add", "add", "del", "copy"}), m |-> R(1..4), n |-> R({"a", "A", "b", "", "a b", "X-Long-Name"}), v |-> R({"", "1", "2", "three"})]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {Op(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
