------------------------------ MODULE CodecTrace ------------------------------
(* A stream is read by the specification one symbol per step before what the *)
(* code made of it is judged.                                                *)
EXTENDS Deflate, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, st
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
None == [ph |-> "none"]
Init == l = 1 /\ bad = <<>> /\ st = None
\* the code's answers r = [ok, out] to a text, all alike: it must be d when the text is valid, and refused when it is not even nearly so
Texts(rs, valid, lax, d) == If(valid /\ \E r \in rs : ~r.ok \/ r.out # d, "decode") \cup If(~lax /\ \E r \in rs : r.ok, "accepted")
                            \cup If(lax /\ ~valid /\ \E r \in rs : r.ok /\ r.out # d, "decode") \cup If(Cardinality({<<r.ok, r.out>> : r \in rs}) > 1, "differ")
\* white space around is open
Bare(s) == LET P == {i \in DOMAIN s : s[i] \notin {9, 10, 11, 12, 13, 32}} IN IF P = {} THEN <<>> ELSE SubSeq(s, Least(P), Most(P))
Inflated == LET v == Verdict(E.fmt, st) IN
            CASE v = "end" -> If(~E.ok \/ E.out # st.out, "read")
              [] v = "more" -> If(E.ok /\ ~Starts(E.out, st.out), "read")
              [] v = "open" -> {}
              [] OTHER -> If(E.ok, "accepted")
Squeezed == If(~E.ok, "failed")
            \cup (IF E.ok THEN If(Verdict(E.fmt, st) # "end" \/ st.out # E.src, "written")
                               \cup If(E.level = 0 /\ Range(st.kinds) # {0}, "level") ELSE {})
            \cup If(~E.back, "roundtrip")
Wrong == CASE E.e = "hexenc" -> If(Range(E.outs) # {HexEnc(E.src)}, "encode")
           [] E.e = "b64enc" -> If(Range(E.outs) # {B64Enc(E.src)}, "encode")
           [] E.e = "hexdec" -> Texts(Range(E.res), HexValid(E.src), HexValid(E.src), IF HexValid(E.src) THEN HexDec(E.src) ELSE <<>>)
           [] E.e = "b64dec" -> LET b == Bare(E.src) IN Texts(Range(E.res), B64Valid(E.src), B64Lax(b), IF B64Lax(b) THEN B64Dec(b) ELSE <<>>)
           [] E.e = "inflate" -> Inflated
           [] E.e = "squeeze" -> Squeezed
           \* large data: lengths and the comparison made where they are
           [] E.e = "large" -> If(~E.same, "roundtrip") \cup If(E.cutok, "accepted") \cup If(E.hurtok, "accepted")
                               \cup If(E.dull /\ E.level > 0 /\ E.size * 10 > E.n, "size") \cup If(E.size > E.n + E.n \div 500 + 64, "size")
           \* long data encoded: windows of it, beginning at a multiple of 3, with what stands for them
           [] E.e = "long" -> If(E.hexlen # 2 * E.n \/ E.b64len # 4 * ((E.n + 2) \div 3), "length") \cup If(~E.back, "decode")
                              \cup If(\E w \in Range(E.windows) : w.hex # HexEnc(w.src) \/ w.b64 # B64Enc(w.src), "encode")
           [] E.e = "panic" -> {"panic"}
           [] E.e = "case" -> {}
Stream == E.e \in {"inflate", "squeeze"}
Judge == /\ l' = l + 1 /\ st' = None
         /\ bad' = LET w == Wrong IN IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C23", why |-> w])
Next == /\ l <= Len(Trace)
        /\ IF ~Stream \/ (st.ph # "none" /\ Halted(st)) THEN Judge
           ELSE /\ UNCHANGED <<l, bad>>
                /\ st' = IF st.ph = "none" THEN Opened(E.fmt, IF E.e = "squeeze" THEN E.out ELSE E.data) ELSE Step(st)
Spec == Init /\ [][Next]_<<l, bad, st>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
