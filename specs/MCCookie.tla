------------------------------ MODULE MCCookie ------------------------------
(* Whatever the order and the case of the attributes, reading a written cookie *)
(* gives it back.                                                              *)
EXTENDS Cookie, SequencesExt
CONSTANTS MaxAttrs, Longest
Abc == {EQ, 97, SP, COMMA}
Texts == {s \in UNION {[1..n -> Abc] : n \in 0..Longest} : Clean(s)}
Pn == {tPath, tSecure, <<97>>}      \* a name may look like an attribute
Opt == {<<>>} \cup {<<s>> : s \in {<<>>, <<SLASH>>, <<97, EQ>>}}
Cookies == {c \in [n : Pn, v : Texts, path : Opt, domain : {<<>>, <<<<EQ>>>>}, expires : {FALSE}, maxage : {<<>>, <<<<48>>>>, <<<<DASH, 49>>>>},
                   secure : BOOLEAN, httponly : BOOLEAN, samesite : {"", "none", "strict", "lax"}] :
              Writable(c) /\ Cardinality(Attributes(c)) <= MaxAttrs}
VARIABLES cookie, order, low
Spelled(p) == IF low THEN LET x == Cut(p, EQ) IN Lower(x.k) \o (IF x.f THEN <<EQ>> \o x.v ELSE <<>>) ELSE p
RECURSIVE Glue(_)
Glue(ps) == IF ps = <<>> THEN <<>> ELSE <<SEMI, SP>> \o Spelled(Head(ps)) \o Glue(Tail(ps))
Text == With(cookie.n, cookie.v) \o Glue(order)
Init == cookie \in Cookies /\ order \in SetToSeqs(Attributes(cookie)) /\ low \in BOOLEAN
Next == UNCHANGED <<cookie, order, low>>
Spec == Init /\ [][Next]_<<cookie, order, low>>
RoundTrip == Read(Text) = cookie /\ ~Unusable(Text) /\ (~low => Written(cookie, Text))
\* an unknown attribute and an empty piece change nothing
Tolerant == Read(Text \o <<SEMI, 120, EQ, 97, SEMI, SP, SEMI>>) = cookie
=============================================================================
