------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of integers.                                    *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC
LF == 10  CR == 13  SP == 32  TAB == 9  COLON == 58  SEMI == 59  EQ == 61  AMP == 38
SLASH == 47  QMARK == 63  HASH == 35  DQUOTE == 34  COMMA == 44  AT == 64  DASH == 45

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : y <= x
\* position of the first b at or after i, 0 if none
Idx(s, b, i) == IF \E k \in i..Len(s) : s[k] = b THEN CHOOSE k \in i..Len(s) : s[k] = b /\ \A j \in i..(k - 1) : s[j] # b ELSE 0
Has(s, b) == \E k \in DOMAIN s : s[k] = b
Sub(s, i, j) == SubSeq(s, i, j)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* position of the first occurrence of p at or after i, 0 if none
At(s, p, k) == s[k] = p[1] /\ SubSeq(s, k, k + Len(p) - 1) = p
Find(s, p, i) == IF p # <<>> /\ \E k \in i..(Len(s) - Len(p) + 1) : At(s, p, k)
                 THEN CHOOSE k \in i..(Len(s) - Len(p) + 1) : At(s, p, k) /\ \A j \in i..(k - 1) : ~At(s, p, j)
                 ELSE IF p = <<>> /\ i <= Len(s) + 1 THEN i ELSE 0
Low(b) == IF b \in 65..90 THEN b + 32 ELSE b
Lower(s) == TLCEval([i \in DOMAIN s |-> Low(s[i])])
SameText(a, b) == Len(a) = Len(b) /\ Lower(a) = Lower(b)

\* the pieces between the separators b
Places(s, b) == SelectSeq([k \in DOMAIN s |-> k], LAMBDA k : s[k] = b)
Split(s, b) == LET P == TLCEval(Places(s, b))  n == Len(P) + 1
               IN  TLCEval([i \in 1..n |-> SubSeq(s, IF i = 1 THEN 1 ELSE P[i - 1] + 1, IF i = n THEN Len(s) ELSE P[i] - 1)])
IsBlank(b) == b = SP \/ b = TAB
RECURSIVE From(_, _), Upto(_, _)
\* the first place from i on, and the last one up to i, that is not blank
From(s, i) == IF i <= Len(s) /\ IsBlank(s[i]) THEN From(s, i + 1) ELSE i
Upto(s, i) == IF i >= 1 /\ IsBlank(s[i]) THEN Upto(s, i - 1) ELSE i
Trim(s) == SubSeq(s, From(s, 1), Upto(s, Len(s)))
NonEmpty(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
\* a piece split at its first separator, [k |-> before, v |-> after, f |-> found]
Cut(s, b) == LET k == Idx(s, b, 1)
             IN IF k = 0 THEN [k |-> s, v |-> <<>>, f |-> FALSE]
                ELSE [k |-> SubSeq(s, 1, k - 1), v |-> SubSeq(s, k + 1, Len(s)), f |-> TRUE]
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))

\* decimal numbers: value, -1 if it is none (values are kept below 2^31)
IsDigit(b) == b \in 48..57
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigit(s[i])
RECURSIVE Num0(_, _)
Num0(s, acc) == IF s = <<>> THEN acc ELSE Num0(Tail(s), acc * 10 + (Head(s) - 48))
Num(s) == IF AllDigits(s) /\ Len(s) <= 9 THEN Num0(s, 0) ELSE 0 - 1
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

\* the last value of each name of a sequence of [n, v] records
LastOf(ps) == {ps[i] : i \in {k \in DOMAIN ps : \A j \in (k + 1)..Len(ps) : ps[j].n # ps[k].n}}

-----------------------------------------------------------------------------
\* Base64, standard alphabet with padding
Sextet(b) == IF b \in 65..90 THEN b - 65 ELSE IF b \in 97..122 THEN b - 71 ELSE IF b \in 48..57 THEN b + 4
             ELSE IF b = 43 THEN 62 ELSE IF b = 47 THEN 63 ELSE 0 - 1
B64Char(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Enc(s) ==
    LET n == Len(s)
        B64At(i) == IF i > n THEN 0 ELSE s[i]
    IN  TLCEval([i \in 1..(((n + 2) \div 3) * 4) |->
            LET g == ((i - 1) \div 4) * 3  k == (i - 1) % 4 IN
            IF g + k > n THEN EQ
            ELSE B64Char(CASE k = 0 -> B64At(g + 1) \div 4
                           [] k = 1 -> (B64At(g + 1) % 4) * 16 + B64At(g + 2) \div 16
                           [] k = 2 -> (B64At(g + 2) % 16) * 4 + B64At(g + 3) \div 64
                           [] k = 3 -> B64At(g + 3) % 64)])
\* 0, 1 or 2 padding characters, at the end only; the unused bits of the last group are zero
B64Pad(s) == IF Ends(s, <<EQ, EQ>>) THEN 2 ELSE IF Ends(s, <<EQ>>) THEN 1 ELSE 0
B64Lax(s) == /\ Len(s) % 4 = 0
             /\ LET t == SubSeq(s, 1, Len(s) - B64Pad(s)) IN
                (\A i \in DOMAIN t : Sextet(t[i]) >= 0) /\ (t = <<>> => B64Pad(s) = 0)
B64Valid(s) == /\ B64Lax(s)
               /\ LET t == SubSeq(s, 1, Len(s) - B64Pad(s)) IN
                  /\ B64Pad(s) = 1 => Sextet(t[Len(t)]) % 4 = 0
                  /\ B64Pad(s) = 2 => Sextet(t[Len(t)]) % 16 = 0
B64Dec(s) ==
    LET B64Six(i) == IF s[i] = EQ THEN 0 ELSE Sextet(s[i])
    IN  TLCEval([i \in 1..((Len(s) \div 4) * 3 - B64Pad(s)) |->
            LET g == ((i - 1) \div 3) * 4  k == (i - 1) % 3 IN
            CASE k = 0 -> B64Six(g + 1) * 4 + B64Six(g + 2) \div 16
              [] k = 1 -> (B64Six(g + 2) % 16) * 16 + B64Six(g + 3) \div 4
              [] k = 2 -> (B64Six(g + 3) % 4) * 64 + B64Six(g + 4)])

\* UTF-8 (RFC 3629): every byte stands alone, begins a character that is complete, or belongs to one
CharLen(a) == IF a < 128 THEN 1 ELSE IF a \in 194..223 THEN 2 ELSE IF a \in 224..239 THEN 3 ELSE IF a \in 240..244 THEN 4 ELSE 0
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
Utf8(s) ==
    \A i \in DOMAIN s :
       LET a == s[i]  n == CharLen(a) IN
       \/ a < 128
       \/ /\ n > 1 /\ \A k \in 1..(n - 1) : Cont(s, i + k)
          /\ (a = 224 => s[i + 1] >= 160) /\ (a = 237 => s[i + 1] < 160)
          /\ (a = 240 => s[i + 1] >= 144) /\ (a = 244 => s[i + 1] < 144)
       \/ a \in 128..191 /\ \E k \in 1..3 : i > k /\ CharLen(s[i - k]) > k /\ \A j \in 1..(k - 1) : Cont(s, i - j)
=============================================================================
