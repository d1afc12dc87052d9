----------------------------- MODULE TokensTrace -----------------------------
EXTENDS Tokens, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
All(s, v) == \A i \in DOMAIN s : s[i] = v
Range(s) == {s[i] : i \in DOMAIN s}
\* a text read as a method: the constants it came out equal to (none: an error) and what it prints as
MethodWrong == LET m == ReadMethod(E.s) IN
               If(E.is # (IF m = "none" THEN <<>> ELSE <<m>>), "method")
               \cup (IF m = "none" \/ E.is = <<>> THEN {} ELSE If(~All(E.prints, Method[m]), "printed"))
PropsWrong == LET m == E.n IN
              If(~All(E.prints, Method[m]), "printed")
              \cup If(m \in Documented /\ E.safe # (m \in Safe), "safe")
              \cup If(m \in Documented /\ E.cacheable # (m \in Cacheable), "cacheable")
              \cup If((m \in Idempotent /\ ~E.idempotent) \/ (m \in NotIdempotent /\ E.idempotent), "idempotent")
VersionWrong == LET v == ReadVersion(E.s) IN
                If(E.is # (IF v = "none" THEN <<>> ELSE <<v>>), "version")
                \cup (IF v = "none" \/ E.is = <<>> THEN {}
                      ELSE If(~All(E.prints, Version[v].t), "printed") \cup If(E.major # 1 \/ E.minor # Version[v].minor, "numbers"))
StatusWrong == If(E.code \notin S!Codes, "accepted")
               \cup (IF E.code \notin S!Codes THEN {}
                     ELSE If(E.gives # E.code, "code") \cup If(~All(E.phrase, S!PhraseBytes[E.code]), "phrase")
                          \cup If(E.debug # DebugText(E.code), "debug") \cup If(Range(E.equals) # {E.code}, "equality"))
\* a run of codes that no status was given for
GapWrong == If(\E c \in S!Codes : c \in E.from..E.to, "rejected")
ConstWrong == If(E.n \notin DOMAIN StatusName \/ E.code # StatusName[E.n], "constant")
\* comparisons in every form the library has, of a constant (its text) with a text or another one
SameWrong == If(~All(E.r, E.a = E.b), "comparison")
MediaWrong == LET m == ReadMedia(E.s) IN
              CASE m.k = "open" -> {}
                [] m.k = "const" -> If(E.is # <<m.n>>, "media") \cup If(~All(E.prints, Media[m.n]), "printed")
                [] m.k = "multi" -> If(~All(E.prints, tMulti), "printed")
                                    \cup If(Range(E.bounds) # {m.b}, "boundary")
CustomWrong == If(~All(E.prints, E.s), "printed")
Wrong == CASE E.e = "method" -> MethodWrong
           [] E.e = "props" -> PropsWrong
           [] E.e = "version" -> VersionWrong
           [] E.e = "status" -> StatusWrong
           [] E.e = "gap" -> GapWrong
           [] E.e = "const" -> ConstWrong
           [] E.e = "same" -> SameWrong
           [] E.e = "media" -> MediaWrong
           [] E.e = "custom" -> CustomWrong
           [] E.e = "panic" -> {"panic"}
           [] E.e = "case" -> {}
Init == l = 1 /\ bad = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ bad' = LET w == Wrong IN IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C21", why |-> w])
Spec == Init /\ [][Next]_<<l, bad>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
