----------------------------- MODULE FiltersGen -----------------------------
(* Configurations of groups and routes with requests, from `tlc -simulate`.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS FilterIds, MaxLen, Depth
VARIABLES hist, ngroups, nroutes
Seqs(n) == UNION {[1..k -> FilterIds] : k \in 0..n}
Init == hist = <<>> /\ ngroups = 0 /\ nroutes = 0
Group == \E f \in {RandomElement(Seqs(MaxLen))} :
           /\ hist' = Append(hist, [op |-> "group", f |-> f]) /\ ngroups' = ngroups + 1 /\ UNCHANGED nroutes
Route == \E f \in {RandomElement(Seqs(MaxLen))}, g \in {RandomElement(1..ngroups)}, wf \in {RandomElement(BOOLEAN)},
            m \in {RandomElement({"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"})} :
           /\ hist' = Append(hist, [op |-> "route", g |-> g, m |-> m, wf |-> wf \/ f # <<>>, f |-> f])
           /\ nroutes' = nroutes + 1 /\ UNCHANGED ngroups
Req == \E r \in {RandomElement(1..nroutes)}, R \in {RandomElement(SUBSET FilterIds)} , few \in {RandomElement(1..3)} :
         /\ hist' = Append(hist, [op |-> "req", r |-> r, resp |-> IF few = 1 THEN {} ELSE IF few = 2 THEN {RandomElement(FilterIds)} ELSE R,
                                  keep |-> RandomElement(BOOLEAN)])
         /\ UNCHANGED <<ngroups, nroutes>>
Next == IF ngroups = 0 THEN Group
        ELSE IF nroutes = 0 THEN Route
        ELSE LET k == RandomElement(1..12)
             IN  IF k = 1 /\ ngroups < 4 THEN Group ELSE IF k <= 4 /\ nroutes < 8 THEN Route ELSE Req
Spec == Init /\ [][Next]_<<hist, ngroups, nroutes>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
