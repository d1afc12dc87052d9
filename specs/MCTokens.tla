------------------------------ MODULE MCTokens ------------------------------
(* The readers of the implementation (dispatch on length, then on the text;    *)
(* split at ';', trim, look up) against Tokens, for every text that is at most *)
(* two edits away from a token.                                                *)
EXTENDS Tokens
VARIABLES kind, s, n
Alphabet == {65, 71, 97, 47, 49, SP, SEMI, EQ, 0, 200}
ByLength(t) == CASE Len(t) = 0 -> "GET"
                 [] Len(t) = 3 -> IF t = Method["GET"] THEN "GET" ELSE IF t = Method["PUT"] THEN "PUT" ELSE IF t = Method["PRI"] THEN "PRI" ELSE "none"
                 [] Len(t) = 4 -> IF t = Method["POST"] THEN "POST" ELSE IF t = Method["HEAD"] THEN "HEAD" ELSE IF t = Method["LINK"] THEN "LINK" ELSE "none"
                 [] Len(t) = 5 -> IF t = Method["PATCH"] THEN "PATCH" ELSE IF t = Method["TRACE"] THEN "TRACE" ELSE "none"
                 [] Len(t) = 6 -> IF t = Method["DELETE"] THEN "DELETE" ELSE IF t = Method["UNLINK"] THEN "UNLINK" ELSE "none"
                 [] Len(t) = 7 -> IF t = Method["OPTIONS"] THEN "OPTIONS" ELSE IF t = Method["CONNECT"] THEN "CONNECT" ELSE "none"
                 [] OTHER -> "none"
\* the media reader: one pass over the bytes, [phase, type so far, boundary found]
RECURSIVE Pass(_, _, _, _, _)
Pass(t, i, part, first, bnd) ==
    LET fin == IF first.f THEN [first EXCEPT !.b = IF @ # <<>> \/ ~Starts(Trim(part), tBoundary) THEN @ ELSE <<Unquoted(Drop(Trim(part), Len(tBoundary)))>>]
               ELSE [f |-> TRUE, t |-> Trim(part), b |-> <<>>]
    IN  IF i > Len(t) THEN fin
        ELSE IF t[i] = SEMI THEN Pass(t, i + 1, <<>>, fin, bnd)
        ELSE Pass(t, i + 1, Append(part, t[i]), first, bnd)
MediaScan(t) == LET r == Pass(t, 1, <<>>, [f |-> FALSE, t |-> <<>>, b |-> <<>>], <<>>) IN
                IF r.t = tMulti THEN IF r.b = <<>> THEN [k |-> "const", n |-> Unknown] ELSE [k |-> "multi", b |-> r.b[1]]
                ELSE [k |-> "const", n |-> IF \E m \in DOMAIN Media : Media[m] = r.t THEN CHOOSE m \in DOMAIN Media : Media[m] = r.t ELSE Unknown]
Edits(t) == {SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)) : i \in DOMAIN t}
            \cup {[t EXCEPT ![i] = b] : i \in DOMAIN t, b \in Alphabet}
            \cup {SubSeq(t, 1, i) \o <<b>> \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), b \in Alphabet}
CONSTANTS MaxEdits, Short
Bases == IF Short THEN [k : {"method"}, t : {Method[m] : m \in Methods}] \cup [k : {"version"}, t : {Version[v].t : v \in Versions}]
         ELSE [k : {"media"}, t : {tMulti \o <<SEMI, SP>> \o tBoundary \o <<98>>, Media["TEXT_XML"] \o <<SEMI, 113, EQ, 49>>, Media["IMAGE_GIF"]}]
Init == \E b \in Bases : kind = b.k /\ s = b.t /\ n = 0
Next == n < MaxEdits /\ n' = n + 1 /\ s' \in Edits(s) /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, s, n>>
MethodAgrees == kind = "method" => ByLength(s) = ReadMethod(s)
Unique == /\ \A a, b \in Methods : Method[a] = Method[b] => a = b
          /\ \A m \in Methods : ReadMethod(Method[m]) = m
          /\ \A v \in Versions : ReadVersion(Version[v].t) = v
          /\ \A m \in DOMAIN Media : ReadMedia(Media[m]) = [k |-> "const", n |-> m]
          /\ \A c \in S!Codes : c \in 100..599 /\ S!PhraseBytes[c] # <<>> /\ \E x \in DOMAIN StatusName : StatusName[x] = c
          /\ \A x, y \in DOMAIN StatusName : StatusName[x] = StatusName[y] => x = y
MediaAgrees == kind = "media" => LET r == ReadMedia(s) IN r.k = "open" \/ r = MediaScan(s)
=============================================================================
