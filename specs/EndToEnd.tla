------------------------------ MODULE EndToEnd ------------------------------
(* C25: clients, the network and a server together. A client asks for a URL    *)
(* over a connection of its own; the bytes arrive in pieces; a worker of the   *)
(* server takes connections in turn, reads a request, runs the handler of its  *)
(* path, which composes a response or panics; the bytes arrive back in pieces; *)
(* connections may be cut. What the request and the response mean is what      *)
(* Url, Request, Response and Answer say.                                      *)
EXTENDS Bytes, TLC
U == INSTANCE Url
Q == INSTANCE Request
R == INSTANCE Response
A == INSTANCE Answer
CONSTANTS Clients, Workers, Wide, Cuts
-----------------------------------------------------------------------------
\* URLs as their parts: scheme, credentials, path, query, fragment; all on host h, port 8
sHost == <<104>>
Parts == [scheme : {<<>>, U!tHttp}, cred : IF Wide THEN {<<>>, <<117, COLON, 112>>, <<117, COLON>>} ELSE {<<>>, <<117, COLON>>},
          path : {<<>>, <<SLASH, 97>>, <<SLASH, 97, SLASH, 98>>, <<SLASH, 102, SLASH, 98, SLASH, 99>>} \cup (IF Wide THEN {<<SLASH>>, <<SLASH, 97, SLASH>>, <<SLASH, 98>>} ELSE {}),
          query : {<<>>, <<QMARK>>, <<QMARK, 97, EQ, 98, AMP, 97>>} \cup (IF Wide THEN {<<QMARK, 97, EQ, QMARK, SLASH>>} ELSE {}), frag : {<<>>, <<HASH, QMARK>>}]
Text(u) == u.scheme \o (IF u.cred = <<>> THEN <<>> ELSE u.cred \o <<AT>>) \o sHost \o <<COLON, 56>> \o u.path \o u.query \o u.frag
\* what a handler should see of it, from the parts
Slot(u) == CASE u.path = <<SLASH, 97>> -> 1 [] u.path \in {<<SLASH, 97, SLASH, 98>>, <<SLASH, 97, SLASH>>} -> 2 [] Len(u.path) = 6 -> 3 [] OTHER -> 0
Params(u) == CASE u.query \in {<<>>, <<QMARK>>} -> <<>>
               [] u.query = <<QMARK, 97, EQ, 98, AMP, 97>> -> <<[n |-> <<97>>, v |-> <<98>>], [n |-> <<97>>, v |-> <<>>]>>
               [] OTHER -> <<[n |-> <<97>>, v |-> <<QMARK, SLASH>>]>>
User(u) == IF u.cred = <<>> THEN Q!NoUser ELSE [h |-> TRUE, n |-> <<117>>, p |-> Drop(u.cred, 2)]
\* the request of the client, from the text
CRLF == <<CR, LF>>
Asking(u) == LET p == U!Parse(Text(u)) IN
    U!tGet \o <<SP>> \o p.target \o <<SP>> \o Q!V11 \o CRLF \o <<72,111,115,116,COLON,SP>> \o p.host \o <<COLON>> \o Dec(p.port) \o CRLF
    \o (IF p.cred = <<>> THEN <<>> ELSE <<65,117,116,104,111,114,105,122,97,116,105,111,110,COLON,SP>> \o U!tBasic \o B64Enc(p.cred[1]) \o CRLF) \o CRLF
-----------------------------------------------------------------------------
\* what handlers do: one sequence of operations per route, and whether it panics first
Bytes0(s) == CASE s = "Content-Type" -> <<67,84>> [] s = "X" -> <<88>> [] s = "text/plain" -> <<116>> [] s = "1" -> <<49>> [] s = "2" -> <<50>> [] s = "" -> <<>>
Body(b) == [op |-> "body", b |-> b, ct |-> "text/plain"]
Programs == {<<>>, <<[op |-> "status", c |-> 404], Body(<<97, LF, CR, LF>>)>>,
             <<[op |-> "add", n |-> "X", v |-> "1"], [op |-> "add", n |-> "X", v |-> ""], Body(<<CR, LF, CR, LF>>), [op |-> "add", n |-> "X", v |-> "2"]>>}
            \cup (IF Wide THEN {<<Body(<<97>>), Body(<<>>), [op |-> "set", n |-> "X", v |-> "1"], [op |-> "set", n |-> "X", v |-> "2"]>>} ELSE {})
Names(ops) == DOMAIN R!Headers(ops, FALSE)
RECURSIVE Spell(_, _)
Spell(hs, ns) == IF ns = {} THEN <<>> ELSE LET n == CHOOSE x \in ns : TRUE IN
                 Join([i \in DOMAIN hs[n] |-> Bytes0(n) \o <<COLON, SP>> \o Bytes0(hs[n][i]) \o CRLF]) \o Spell(hs, ns \ {n})
Composed(ops) == LET b == R!BodyOf(ops).b  c == R!StatusOf(ops) IN
    Q!V11 \o <<SP>> \o Dec(c) \o <<SP>> \o A!Ph[c] \o CRLF \o Spell(R!Headers(ops, FALSE), Names(ops))
    \o <<67,111,110,116,101,110,116,45,76,101,110,103,116,104,COLON,SP>> \o Dec(Len(b)) \o CRLF \o CRLF \o b
Refusal(c) == Q!V11 \o <<SP>> \o Dec(c) \o <<SP>> \o A!Ph[c] \o CRLF \o CRLF
-----------------------------------------------------------------------------
VARIABLES url, does, up, got, down, seen, closed, state, queue, work, runs, cut, res
vars == <<url, does, up, got, down, seen, closed, state, queue, work, runs, cut, res>>
\* client c's program when its handler runs: "panic" or operations
Few == {u \in Parts : u.scheme = <<>> /\ u.frag = <<>> /\ u.query # <<QMARK>>}
Fewer == {u \in Few : (u.cred = <<>>) = (u.query = <<>>) /\ Len(u.path) \in {2, 4}}
Init == /\ url \in (IF Cardinality(Clients) = 1 THEN [Clients -> Parts] ELSE {f \in [Clients -> Few] : \A c \in Clients \ {1} : f[c] \in Fewer})
        /\ does \in {f \in [Clients -> Programs \cup {<<[op |-> "panic"]>>}] : \A c \in Clients \ {1} : Wide \/ Len(f[c]) \in {1, 4}}
        /\ up = [c \in Clients |-> <<>>] /\ got = [c \in Clients |-> 0] /\ down = [c \in Clients |-> <<>>] /\ seen = [c \in Clients |-> 0]
        /\ closed = [c \in Clients |-> FALSE] /\ state = [c \in Clients |-> "idle"] /\ queue = <<>>
        /\ work = [w \in Workers |-> 0] /\ runs = [c \in Clients |-> <<>>] /\ cut = [c \in Clients |-> FALSE] /\ res = [c \in Clients |-> A!Error]
Ask(c) == /\ state[c] = "idle" /\ state' = [state EXCEPT ![c] = "waiting"] /\ up' = [up EXCEPT ![c] = Asking(url[c])] /\ queue' = Append(queue, c)
          /\ UNCHANGED <<url, does, got, down, seen, closed, work, runs, cut, res>>
Steps(n, len) == IF n < len \div 2 THEN {len \div 2, len} ELSE {len}
Arrive(c) == /\ got[c] < Len(up[c]) /\ \E n \in Steps(got[c], Len(up[c])) : got' = [got EXCEPT ![c] = n]
             /\ UNCHANGED <<url, does, up, down, seen, closed, state, queue, work, runs, cut, res>>
Take0(w) == /\ work[w] = 0 /\ queue # <<>> /\ work' = [work EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
            /\ UNCHANGED <<url, does, up, got, down, seen, closed, state, runs, cut, res>>
Serve(w) ==
    LET c == work[w] IN
    /\ c # 0 /\ Q!HeadEnd(Take(up[c], got[c])) # 0
    /\ LET v == Q!Verdict(Take(up[c], got[c]), 0, FALSE)
           panics == does[c] # <<>> /\ does[c][1].op = "panic"
       IN  IF v.must # {} THEN /\ \E e \in v.must : down' = [down EXCEPT ![c] = Refusal(e)]
                               /\ UNCHANGED runs
           ELSE /\ runs' = [runs EXCEPT ![c] = Append(@, v.obs)]
                /\ down' = [down EXCEPT ![c] = IF panics THEN <<>> ELSE Composed(does[c])]
    /\ closed' = [closed EXCEPT ![c] = TRUE] /\ work' = [work EXCEPT ![w] = 0]    \* a worker that panicked is replaced
    /\ UNCHANGED <<url, does, up, got, seen, state, queue, cut, res>>
Return(c) == /\ seen[c] < Len(down[c]) /\ ~cut[c] /\ \E n \in Steps(seen[c], Len(down[c])) : seen' = [seen EXCEPT ![c] = n]
             /\ UNCHANGED <<url, does, up, got, down, closed, state, queue, work, runs, cut, res>>
\* the connection breaks while the response is under way, at any byte
Break(c) == /\ Cuts /\ closed[c] /\ ~cut[c] /\ state[c] = "waiting" /\ seen[c] < Len(down[c])
            /\ \E n \in seen[c]..(Len(down[c]) - 1) : seen' = [seen EXCEPT ![c] = n]
            /\ cut' = [cut EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<url, does, up, got, down, closed, state, queue, work, runs, res>>
Finish(c) == /\ state[c] = "waiting" /\ closed[c] /\ (seen[c] = Len(down[c]) \/ cut[c]) /\ state' = [state EXCEPT ![c] = "done"]
             /\ res' = [res EXCEPT ![c] = A!Meaning(Take(down[c], seen[c]))]
             /\ UNCHANGED <<url, does, up, got, down, seen, closed, queue, work, runs, cut>>
Next == (\E c \in Clients : Ask(c) \/ Arrive(c) \/ Return(c) \/ Break(c) \/ Finish(c)) \/ (\E w \in Workers : Take0(w) \/ Serve(w))
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)
-----------------------------------------------------------------------------
Shown(m) == {[n |-> n, vs |-> A!Values(m.hs, n)] : n \in {x \in A!Names(m.hs) : Lower(x) # A!nLength}}
Once == \A c \in Clients : Len(runs[c]) <= 1
Sees == \A c \in Clients : \A i \in DOMAIN runs[c] :
          LET o == runs[c][i]  u == url[c] IN
          /\ o.slot = Slot(u) /\ o.slot # 0 /\ o.path = u.path /\ o.params = Params(u) /\ o.user = User(u)
          /\ o.hdr = {[n |-> <<72,111,115,116>>, v |-> sHost \o <<COLON, 56>>]} \cup {h \in o.hdr : Lower(h.n) = Q!nAuth}
Panics(c) == Slot(url[c]) # 0 /\ does[c] # <<>> /\ does[c][1].op = "panic"
Reports == \A c \in Clients : state[c] = "done" =>
    LET m == res[c]  ops == does[c] IN
    IF cut[c] THEN m.k = "error" \/ Slot(url[c]) = 0           \* a refusal announces no length
    ELSE IF Slot(url[c]) = 0 THEN m.k = "ok" /\ m.code = 404 /\ runs[c] = <<>>
    ELSE IF Panics(c) THEN m.k = "error" /\ Len(runs[c]) = 1
    ELSE /\ m.k = "ok" /\ Len(runs[c]) = 1 /\ m.code = R!StatusOf(ops) /\ m.body = R!BodyOf(ops).b
         /\ Shown(m) = {[n |-> Bytes0(n), vs |-> [i \in DOMAIN R!Headers(ops, FALSE)[n] |-> Bytes0(R!Headers(ops, FALSE)[n][i])]] : n \in Names(ops)}
Done == <>(\A c \in Clients : state[c] = "done")
=============================================================================
