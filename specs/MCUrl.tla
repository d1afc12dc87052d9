-------------------------------- MODULE MCUrl --------------------------------
(* The byte-wise scanner of the client against the meaning of the text.        *)
EXTENDS Url, TLC
CONSTANTS Longest
Abc == {COLON, SLASH, AT, QMARK, HASH, 56, 97}
tHttpC == <<104,116,116,112,58>>
Prefixes == {<<>>, tHttp, tHttps, tHttpC, <<104,116>>, <<104,116,116,112,115,58>>, <<104,116,116,112,58,47>>}
VARIABLES text, at, phase, key, tmp, tls, user, addr, out
vars == <<text, at, phase, key, tmp, tls, user, addr, out>>
No == [host |-> <<>>, port |-> 0]
Start(u) == \* the loop that tells a scheme from the rest: where the scan goes on, with which key
    IF Starts(u, tHttp) THEN [p |-> 8, k |-> <<>>, t |-> FALSE, e |-> FALSE]
    ELSE IF Starts(u, tHttps) THEN [p |-> 9, k |-> <<>>, t |-> TRUE, e |-> FALSE]
    ELSE IF Starts(u, <<104,116,116,112,58>>) /\ Len(u) > 5 /\ u[6] # SLASH THEN [p |-> 6, k |-> <<104,116,116,112>>, t |-> FALSE, e |-> FALSE]
    ELSE IF Starts(u, <<104,116,116,112,115,58>>) /\ Len(u) > 6 /\ u[7] # SLASH THEN [p |-> 7, k |-> <<104,116,116,112,115>>, t |-> FALSE, e |-> FALSE]
    ELSE IF Starts(u, tHttpC) \/ Starts(u, <<104,116,116,112,115,58>>) \/ u = <<>> THEN [p |-> 1, k |-> <<>>, t |-> FALSE, e |-> TRUE]
    ELSE [p |-> 1, k |-> <<>>, t |-> FALSE, e |-> FALSE]
Init == /\ \E p \in Prefixes : \E s \in UNION {[1..n -> Abc] : n \in 0..Longest} : text = p \o s
        /\ LET b == Start(text) IN at = b.p /\ key = b.k /\ tls = b.t /\ phase = (IF b.e THEN "err" ELSE "auth")
        /\ tmp = <<>> /\ user = <<>> /\ addr = No /\ out = <<>>
Default == IF tls THEN 443 ELSE 80
More == at <= Len(text)
B == text[at]
\* host (and port) are complete
Settle(next) == IF key = <<>> THEN addr' = [host |-> tmp, port |-> Default] /\ phase' = next
                ELSE IF AllDigits(tmp) /\ Num(tmp) \in 0..65535 THEN addr' = [host |-> key, port |-> Num(tmp)] /\ phase' = next
                ELSE addr' = addr /\ phase' = "err"
Step == /\ phase \in {"auth", "addr"} /\ UNCHANGED <<text, tls, out>>
        /\ IF ~More THEN Settle("loc") /\ UNCHANGED <<at, key, tmp, user>>
           ELSE IF B = COLON
                THEN IF key # <<>> \/ tmp = <<>> THEN phase' = "err" /\ UNCHANGED <<at, key, tmp, user, addr>>
                     ELSE key' = tmp /\ tmp' = <<>> /\ at' = at + 1 /\ UNCHANGED <<phase, user, addr>>
           ELSE IF B = AT /\ phase = "auth"
                THEN IF key = <<>> THEN phase' = "err" /\ UNCHANGED <<at, key, tmp, user, addr>>
                     ELSE user' = <<key \o <<COLON>> \o tmp>> /\ key' = <<>> /\ tmp' = <<>> /\ at' = at + 1 /\ phase' = "addr" /\ UNCHANGED addr
           ELSE IF B \in nAuthority THEN Settle("loc") /\ UNCHANGED <<at, key, tmp, user>>
           ELSE tmp' = Append(tmp, B) /\ at' = at + 1 /\ UNCHANGED <<phase, key, user, addr>>
Place == /\ phase = "loc" /\ phase' = "done" /\ UNCHANGED <<text, at, key, tmp, tls, user, addr>>
         /\ LET loc == Drop(text, at - 1)
                f == Idx(loc, HASH, 1)
                src == IF f = 0 THEN loc ELSE Take(loc, f - 1)
            IN out' = IF src = <<>> \/ src[1] = QMARK THEN <<SLASH>> \o src ELSE src
Next == Step \/ Place
Spec == Init /\ [][Next]_vars
\* a connection to an empty or impossible host, or to port 0, is never made
Reached == phase = "done" /\ addr.host # <<>> /\ addr.port # 0 /\ ~Has(addr.host, AT)
Agrees == LET p == Parse(text) IN
          /\ Reached => p.k # "bad" /\ (p.k = "ok" => p = [k |-> "ok", host |-> addr.host, port |-> addr.port, target |-> out, cred |-> user])
          /\ phase \in {"err", "done"} /\ ~Reached => p.k # "ok"
=============================================================================
