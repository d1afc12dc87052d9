------------------------------ MODULE MCBytes ------------------------------
(* Sanity of the byte functions, on all short strings of a small alphabet.   *)
EXTENDS Bytes, TLC
VARIABLE s
Alphabet == {10, 13, 61, 65, 97, 250}
Init == s \in UNION {[1..n -> Alphabet] : n \in 0..5}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
RECURSIVE Glue(_, _)
Glue(ss, b) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<b>> \o Glue(Tail(ss), b)
Inverse == B64Dec(B64Enc(s)) = s /\ B64Valid(B64Enc(s))
SplitJoins == Glue(Split(s, 61), 61) = s
CutJoins == LET c == Cut(s, 61) IN IF c.f THEN c.k \o <<61>> \o c.v = s /\ ~Has(c.k, 61) ELSE c.k = s
\* the definitions of Bytes against plain ones
PlainIdx(q, b, i) == LET P == {k \in i..Len(q) : q[k] = b} IN IF P = {} THEN 0 ELSE Least(P)
PlainFind(q, p, i) == LET P == {k \in i..(Len(q) - Len(p) + 1) : SubSeq(q, k, k + Len(p) - 1) = p} IN IF P = {} THEN 0 ELSE Least(P)
PlainTrim(q) == LET P == {k \in DOMAIN q : ~IsBlank(q[k])} IN IF P = {} THEN <<>> ELSE SubSeq(q, Least(P), Most(P))
RECURSIVE PlainSplit(_, _, _), PlainUtf8(_)
PlainSplit(q, b, i) == LET k == PlainIdx(q, b, i) IN IF k = 0 THEN <<SubSeq(q, i, Len(q))>> ELSE <<SubSeq(q, i, k - 1)>> \o PlainSplit(q, b, k + 1)
PlainUtf8(q) ==
    IF q = <<>> THEN TRUE
    ELSE LET a == q[1] IN
         IF a < 128 THEN PlainUtf8(Drop(q, 1))
         ELSE IF a \in 194..223 THEN Cont(q, 2) /\ PlainUtf8(Drop(q, 2))
         ELSE IF a \in 224..239 THEN Cont(q, 2) /\ Cont(q, 3) /\ (a = 224 => q[2] >= 160) /\ (a = 237 => q[2] < 160) /\ PlainUtf8(Drop(q, 3))
         ELSE IF a \in 240..244 THEN Cont(q, 2) /\ Cont(q, 3) /\ Cont(q, 4) /\ (a = 240 => q[2] >= 144) /\ (a = 244 => q[2] < 144) /\ PlainUtf8(Drop(q, 4))
         ELSE FALSE
Agree == /\ \A b \in {10, 61} : Split(s, b) = PlainSplit(s, b, 1) /\ \A i \in 1..4 : Idx(s, b, i) = PlainIdx(s, b, i)
         /\ \A p \in {<<13, 10>>, <<10>>, <<>>, <<10, 10, 10>>} : \A i \in 1..3 : Find(s, p, i) = PlainFind(s, p, i)
\* other letters: blanks and the bytes UTF-8 is made of
Swap(x) == CASE x = 10 -> 9 [] x = 13 -> 32 [] OTHER -> x
Wider(x) == CASE x = 10 -> 128 [] x = 13 -> 160 [] x = 61 -> 195 [] x = 97 -> 237 [] x = 250 -> 244 [] OTHER -> 97
Wider2(x) == CASE x = 10 -> 191 [] x = 13 -> 144 [] x = 61 -> 240 [] x = 97 -> 224 [] x = 250 -> 193 [] OTHER -> 230
Other == LET t == [i \in DOMAIN s |-> Swap(s[i])] IN Trim(t) = PlainTrim(t)
Texts == \A t \in {[i \in DOMAIN s |-> Wider(s[i])], [i \in DOMAIN s |-> Wider2(s[i])]} : Utf8(t) = PlainUtf8(t)
DecNum == \A n \in {0, 7, 10, 99, 100, 12345} : Num(Dec(n)) = n
=============================================================================
