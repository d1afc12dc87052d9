------------------------------ MODULE MCRouter ------------------------------
EXTENDS Router
L(s) == [p |-> FALSE, s |-> s]
V(s) == [p |-> TRUE, s |-> s]
MCPieces == {L("a"), L("b"), V("x"), V("y")}
MCSegments == {"a", "b", "c"}
=============================================================================
