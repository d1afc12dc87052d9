----------------------------- MODULE MCMultipart -----------------------------
(* Rendering a list of parts and scanning the result gives the parts back,    *)
(* for every content over a small alphabet.                                   *)
EXTENDS Multipart
CONSTANTS MaxLen, MaxParts
VARIABLES parts, tail
Alphabet == {CR, LF, DASH, 98}
bnd == <<98>>
Contents == {c \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} : WellFormed(c, bnd)}
HeaderSets == {<<>>, <<<<97>>>>}
Init == parts = <<>> /\ tail \in {<<>>, CRLF, <<LF>>}
Next == /\ Len(parts) < MaxParts
        /\ \E c \in Contents, h \in HeaderSets : parts' = Append(parts, [l |-> h, v |-> c])
        /\ UNCHANGED tail
Spec == Init /\ [][Next]_<<parts, tail>>
Inverse == Parse(Render(parts, bnd) \o tail, bnd) = [ok |-> TRUE, parts |-> parts]
\* the body cut short anywhere before the closing delimiter is not taken for a whole one
Truncated == \A n \in 0..(Len(Render(parts, bnd)) - 3) : ~Parse(Take(Render(parts, bnd), n), bnd).ok
=============================================================================
