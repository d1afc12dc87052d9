----------------------------- MODULE RouterGen -----------------------------
(* Histories of registrations and requests for replay, from `tlc -simulate`. *)
EXTENDS Router, Json
CONSTANT Depth
VARIABLES hist
L(s) == [p |-> FALSE, s |-> s]
V(s) == [p |-> TRUE, s |-> s]
GPieces == {L("a"), L("b"), L(""), V("x"), V("y"), V("z")}
GSegments == {"a", "b", "c", ""}

GInit == Init /\ hist = <<>>
GReg == \E m \in {RandomElement(Methods)} :
        LET ok == {p \in Patterns : CanRegister(routes, m, p)}
        IN  /\ ok # {}
            /\ \E pat \in {RandomElement(ok)} : \E g \in {RandomElement(0..(Len(pat) - 1))} :
                  /\ Register(m, pat)
                  /\ hist' = Append(hist, [op |-> "reg", m |-> m, pat |-> pat, g |-> g])
\* an attempt to register a shape a second time, with other names, through another group, or without the slash
GDup == /\ routes # <<>>
        /\ \E r \in {RandomElement(DOMAIN routes)} : \E g \in {RandomElement(0..(Len(routes[r].pat) - 1))}, names \in {RandomElement({<<"x", "y", "z">>, <<"q", "r", "s">>})},
              abs \in {RandomElement(1..3) # 1 \/ (~routes[r].pat[1].p /\ routes[r].pat[1].s = "")} :
            /\ UNCHANGED vars
            /\ hist' = Append(hist, [op |-> "dup", m |-> routes[r].m, abs |-> abs, g |-> IF abs THEN g ELSE 0,
                                     pat |-> [i \in DOMAIN routes[r].pat |-> IF routes[r].pat[i].p THEN V(names[i]) ELSE routes[r].pat[i]]])
GReq == \E m \in {RandomElement(Methods)}, path \in {RandomElement(Paths)} :
          /\ UNCHANGED vars
          /\ hist' = Append(hist, [op |-> "req", m |-> m, path |-> path, abs |-> TRUE, q |-> FALSE])
\* three requests for each registration, registrations may come at any time
GNext == IF Len(routes) < MaxRoutes /\ RandomElement(1..4) <= (IF Len(hist) < 3 THEN 3 ELSE 1) THEN GReg
         ELSE IF routes # <<>> /\ RandomElement(1..12) = 1 THEN GDup ELSE GReq
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
