------------------------------ MODULE MCSession ------------------------------
EXTENDS Session
CONSTANT Longest
Kinds == {"keep", "close", "bad", "panic"}
AllRequests == UNION {[1..n -> Kinds] : n \in 0..Longest}
=============================================================================
