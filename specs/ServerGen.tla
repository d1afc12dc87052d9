------------------------------ MODULE ServerGen ------------------------------
(* Scripts for a concurrent run: workers, and for every connection the kinds  *)
(* of its requests (see Server).                                              *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE hist
R(S) == RandomElement(S)
Kind(i, n) == IF i < n THEN R({"keep", "keep", "keep", "panic"}) ELSE R({"keep", "close", "panic"})
RECURSIVE Script(_, _)
Script(i, n) == IF i > n THEN <<>> ELSE LET k == Kind(i, n) IN IF k = "panic" THEN <<k>> ELSE <<k>> \o Script(i + 1, n)
Init == hist = <<>>
Next == hist = <<>> /\ \E w \in {R(1..4)}, c \in {R(2..12)} : hist' = <<[workers |-> w, conns |-> [i \in 1..c |-> Script(1, R(1..4))]]>>
Spec == Init /\ [][Next]_hist
Emit == hist # <<>> => PrintT(ToJson(hist[1]))
=============================================================================
