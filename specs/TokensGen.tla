------------------------------ MODULE TokensGen ------------------------------
(* Which text to start from and how to damage it, for methods, versions and    *)
(* media types.                                                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLE hist
R(S) == RandomElement(S)
Damage(h) == [how |-> R({"none", "none", "case", "drop", "double", "swap", "byte", "append", "prepend"}), at |-> R(0..40), byte |-> R({0, 9, 32, 47, 59, 61, 65, 71, 97, 128, 255})]
Item(h) == [kind |-> R({"method", "version", "media", "media"}), base |-> R(0..40), dmg |-> [i \in 1..R({0, 1, 1, 2}) |-> Damage(h)],
            params |-> [i \in 1..R(0..3) |-> R({"boundary", "quoted", "charset", "empty", "blank", "Boundary", "q"})], pad |-> R({0, 0, 1, 2})]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {Item(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
