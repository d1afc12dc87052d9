------------------------------- MODULE Deflate -------------------------------
(* Compressed data (RFC 1951) in its zlib (RFC 1950) and gzip (RFC 1952)     *)
(* wrappers: a reader that consumes one symbol per step, and a writer of     *)
(* stored and fixed-code blocks.                                             *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, Bytes

-----------------------------------------------------------------------------
\* Checksums, as <<high, low>> halves of 16 bits
RECURSIVE Adler0(_, _, _, _)
Adler0(s, i, a, b) == IF i > Len(s) THEN <<b, a>> ELSE LET c == (a + s[i]) % 65521 IN Adler0(s, i + 1, c, (b + c) % 65521)
Adler(s) == Adler0(s, 1, 1, 0)

\* one bit out of a register whose polynomial is EDB88320
CrcShift(r) == LET hi == r[1] \div 2  lo == (r[2] \div 2) + (r[1] % 2) * 32768
               IN IF r[2] % 2 = 1 THEN <<hi ^^ 60856, lo ^^ 33568>> ELSE <<hi, lo>>
CrcByte(r) == CrcShift(CrcShift(CrcShift(CrcShift(CrcShift(CrcShift(CrcShift(CrcShift(r))))))))
CrcTable == [b \in 0..255 |-> CrcByte(<<0, b>>)]
RECURSIVE Crc0(_, _, _)
Crc0(s, i, r) == IF i > Len(s) THEN <<65535 - r[1], 65535 - r[2]>>
                 ELSE LET x == CrcTable[(r[2] % 256) ^^ s[i]]
                      IN Crc0(s, i + 1, <<(r[1] \div 256) ^^ x[1], ((r[2] \div 256) + (r[1] % 256) * 256) ^^ x[2]>>)
Crc(s) == Crc0(s, 1, <<65535, 65535>>)
Big(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Little(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>

-----------------------------------------------------------------------------
\* The tables of the format
Pow2 == [i \in 0..16 |-> 2 ^ i]
LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577>>
DistExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
Order == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>
FixedLens == [i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8]
FixedDists == [i \in 1..30 |-> 5]

\* A code from the lengths of its words: how many words of each length, and the symbols in the order of their words
Code(lens) == LET n == [k \in 1..15 |-> Cardinality({i \in DOMAIN lens : lens[i] = k})]
                  of(k) == SelectSeq([i \in 1..Len(lens) |-> i], LAMBDA i : lens[i] = k)
              IN [n |-> n, s |-> Join([k \in 1..15 |-> of(k)])]
RECURSIVE Slack(_, _, _)
Slack(n, k, left) == IF k > 15 THEN left ELSE IF left * 2 - n[k] < 0 THEN 0 - 1 ELSE Slack(n, k + 1, left * 2 - n[k])
\* -1: more words than there are; 0: every bit string begins with a word; more: not every
Fullness(c) == Slack(c.n, 1, 1)
FixedCode == Code(FixedLens)
FixedDist == [n |-> [k \in 1..15 |-> IF k = 5 THEN 30 ELSE 0], s |-> [i \in 1..30 |-> i]]

NBits(src) == 8 * Len(src)
Bit(src, k) == (src[(k \div 8) + 1] \div Pow2[k % 8]) % 2
RECURSIVE BitsAt(_, _, _)
BitsAt(src, k, n) == IF n = 0 THEN 0 ELSE Bit(src, k) + 2 * BitsAt(src, k + 1, n - 1)
\* [v, k]: the next word of a code, 0 if there is none, and where the next bit is
RECURSIVE Word0(_, _, _, _, _, _, _)
Word0(src, k, c, len, code, first, index) ==
    IF len > 15 \/ k >= NBits(src) THEN [v |-> 0, k |-> k, short |-> k >= NBits(src)]
    ELSE LET x == code + Bit(src, k)  n == c.n[len]
         IN IF x - n < first THEN [v |-> c.s[index + (x - first) + 1], k |-> k + 1, short |-> FALSE]
            ELSE Word0(src, k + 1, c, len + 1, 2 * x, 2 * (first + n), index + n)
Word(src, k, c) == Word0(src, k, c, 1, 0, 0, 0)

-----------------------------------------------------------------------------
\* The reader.  ph: "block" at the start of a block, "sym" inside coded data, "end", "bad" malformed,
\* "short" out of input, "open" where readers differ (codes that are not complete, copies from before the beginning)
Start(src, at) == [src |-> src, k |-> 8 * at, out |-> <<>>, ph |-> "block", last |-> FALSE, lit |-> FixedCode, dist |-> FixedDist, kinds |-> <<>>]
Halt(st, ph) == [st EXCEPT !.ph = ph]
Halted(st) == st.ph \in {"end", "bad", "short", "open"}
Enough(st, n) == st.k + n <= NBits(st.src)

Stored(st) ==
    LET at == (st.k + 7) \div 8 IN
    IF at + 4 > Len(st.src) THEN Halt(st, "short")
    ELSE LET n == st.src[at + 1] + 256 * st.src[at + 2]
             m == st.src[at + 3] + 256 * st.src[at + 4]
         IN IF n + m # 65535 THEN Halt(st, "bad")
            ELSE IF at + 4 + n > Len(st.src) THEN Halt([st EXCEPT !.out = @ \o Drop(st.src, at + 4)], "short")
            ELSE [st EXCEPT !.k = 8 * (at + 4 + n), !.out = @ \o SubSeq(st.src, at + 5, at + 4 + n), !.ph = IF st.last THEN "end" ELSE "block"]

\* the lengths of the words of a dynamic block, [ok, k, lens, ph]
RECURSIVE Lengths(_, _, _, _, _)
Lengths(src, k, c, want, acc) ==
    IF Len(acc) > want THEN [ok |-> FALSE, k |-> k, lens |-> acc, ph |-> "bad"]
    ELSE IF Len(acc) = want THEN [ok |-> TRUE, k |-> k, lens |-> acc, ph |-> "sym"]
    ELSE LET w == Word(src, k, c)  s == w.v - 1 IN
         IF w.v = 0 THEN [ok |-> FALSE, k |-> k, lens |-> acc, ph |-> IF w.short THEN "short" ELSE "bad"]
         ELSE IF s < 16 THEN Lengths(src, w.k, c, want, Append(acc, s))
         ELSE LET e == CASE s = 16 -> 2 [] s = 17 -> 3 [] OTHER -> 7
                  base == IF s = 18 THEN 11 ELSE 3
              IN IF w.k + e > NBits(src) THEN [ok |-> FALSE, k |-> k, lens |-> acc, ph |-> "short"]
                 ELSE IF s = 16 /\ acc = <<>> THEN [ok |-> FALSE, k |-> k, lens |-> acc, ph |-> "bad"]
                 ELSE LET n == base + BitsAt(src, w.k, e)
                          x == IF s = 16 THEN acc[Len(acc)] ELSE 0
                      IN Lengths(src, w.k + e, c, want, acc \o [i \in 1..n |-> x])
Dynamic(st) ==
    IF ~Enough(st, 14) THEN Halt(st, "short")
    ELSE LET nl == BitsAt(st.src, st.k, 5) + 257
             nd == BitsAt(st.src, st.k + 5, 5) + 1
             nc == BitsAt(st.src, st.k + 10, 4) + 4
         IN IF nl > 286 \/ nd > 30 THEN Halt(st, "bad")
            ELSE IF ~Enough(st, 14 + 3 * nc) THEN Halt(st, "short")
            ELSE LET cl == [i \in 1..19 |-> LET P == {j \in 1..nc : Order[j] = i - 1} IN
                                            IF P = {} THEN 0 ELSE BitsAt(st.src, st.k + 14 + 3 * ((CHOOSE j \in P : TRUE) - 1), 3)]
                     c == Code(cl)
                 IN IF Fullness(c) < 0 THEN Halt(st, "bad")
                    ELSE IF Fullness(c) > 0 THEN Halt(st, "open")
                    ELSE LET r == Lengths(st.src, st.k + 14 + 3 * nc, c, nl + nd, <<>>) IN
                         IF ~r.ok THEN Halt(st, r.ph)
                         ELSE LET lit == Code(SubSeq(r.lens, 1, nl))  dist == Code(SubSeq(r.lens, nl + 1, nl + nd)) IN
                              IF r.lens[257] = 0 \/ Fullness(lit) < 0 \/ Fullness(dist) < 0 THEN Halt(st, IF r.lens[257] = 0 THEN "open" ELSE "bad")
                              ELSE IF Fullness(lit) > 0 THEN Halt(st, "open")
                              ELSE IF Fullness(dist) > 0 /\ Len(dist.s) > 1 THEN Halt(st, "open")
                              ELSE [st EXCEPT !.k = r.k, !.lit = lit, !.dist = dist, !.ph = "sym"]

Block(st) ==
    IF ~Enough(st, 3) THEN Halt(st, "short")
    ELSE LET t == BitsAt(st.src, st.k + 1, 2)
             s1 == [st EXCEPT !.k = @ + 3, !.last = Bit(st.src, st.k) = 1, !.kinds = Append(@, t)]
         IN CASE t = 0 -> Stored(s1)
              [] t = 1 -> [s1 EXCEPT !.lit = FixedCode, !.dist = FixedDist, !.ph = "sym"]
              [] t = 2 -> Dynamic(s1)
              [] OTHER -> Halt(s1, "bad")

RECURSIVE CopyBack(_, _, _)
CopyBack(out, d, n) == IF n = 0 THEN out ELSE CopyBack(Append(out, out[Len(out) - d + 1]), d, n - 1)
Symbol(st) ==
    LET w == Word(st.src, st.k, st.lit)  s == w.v - 1 IN
    IF w.v = 0 THEN Halt(st, IF w.short THEN "short" ELSE "bad")
    ELSE IF s < 256 THEN [st EXCEPT !.k = w.k, !.out = Append(@, s)]
    ELSE IF s = 256 THEN [st EXCEPT !.k = w.k, !.ph = IF st.last THEN "end" ELSE "block"]
    ELSE IF s > 285 THEN Halt(st, "bad")
    ELSE LET le == LenExtra[s - 256] IN
         IF w.k + le > NBits(st.src) THEN Halt(st, "short")
         ELSE LET n == LenBase[s - 256] + BitsAt(st.src, w.k, le)
                  x == Word(st.src, w.k + le, st.dist)
              IN IF x.v = 0 THEN Halt(st, IF x.short THEN "short" ELSE "bad")
                 ELSE IF x.v > 30 THEN Halt(st, "bad")
                 ELSE LET de == DistExtra[x.v] IN
                      IF x.k + de > NBits(st.src) THEN Halt(st, "short")
                      ELSE LET d == DistBase[x.v] + BitsAt(st.src, x.k, de) IN
                           IF d > Len(st.out) THEN Halt(st, "open")
                           ELSE [st EXCEPT !.k = x.k + de, !.out = CopyBack(@, d, n)]
Step(st) == IF st.ph = "block" THEN Block(st) ELSE Symbol(st)
RECURSIVE Finish(_)
Finish(st) == IF Halted(st) THEN st ELSE Finish(Step(st))
Used(st) == (st.k + 7) \div 8

-----------------------------------------------------------------------------
\* The wrappers: where the data begin, [ok, at, ph]
ZlibHead(s) == IF Len(s) < 2 THEN [at |-> 0, ph |-> "short"]
               ELSE IF (s[1] * 256 + s[2]) % 31 # 0 \/ s[1] % 16 # 8 \/ s[1] \div 16 > 7 THEN [at |-> 0, ph |-> "bad"]
               ELSE IF (s[2] \div 32) % 2 = 1 THEN [at |-> 0, ph |-> "bad"]      \* a preset dictionary nobody knows
               ELSE [at |-> 2, ph |-> "block"]
\* after a zero-terminated field
AfterZero(s, at) == LET z == Idx(s, 0, at + 1) IN IF z = 0 THEN 0 - 1 ELSE z
Has1(flg, bit) == (flg \div Pow2[bit]) % 2 = 1
GzipHead(s) ==
    LET wrong == \/ (Len(s) >= 1 /\ s[1] # 31) \/ (Len(s) >= 2 /\ s[2] # 139) \/ (Len(s) >= 3 /\ s[3] # 8)
                 \/ (Len(s) >= 4 /\ s[4] \div 32 # 0)
    IN IF wrong THEN [at |-> 0, ph |-> IF Len(s) >= 3 /\ s[1] = 31 /\ s[2] = 139 /\ s[3] = 8 THEN "open" ELSE "bad"]
       ELSE IF Len(s) < 10 THEN [at |-> 0, ph |-> "short"]
       ELSE LET f == s[4]
                x == IF ~Has1(f, 2) THEN 10 ELSE IF Len(s) < 12 THEN 0 - 1
                     ELSE LET n == s[11] + 256 * s[12] IN IF Len(s) < 12 + n THEN 0 - 1 ELSE 12 + n
                y == IF x < 0 THEN x ELSE IF ~Has1(f, 3) THEN x ELSE AfterZero(s, x)
                z == IF y < 0 THEN y ELSE IF ~Has1(f, 4) THEN y ELSE AfterZero(s, y)
            IN IF z < 0 THEN [at |-> 0, ph |-> "short"]
               ELSE IF ~Has1(f, 1) THEN [at |-> z, ph |-> "block"]
               ELSE IF Len(s) < z + 2 THEN [at |-> 0, ph |-> "short"]
               ELSE IF LET c == Crc(Take(s, z)) IN s[z + 1] + 256 * s[z + 2] # c[2] THEN [at |-> 0, ph |-> "open"]
               ELSE [at |-> z + 2, ph |-> "block"]
Head0(fmt, s) == CASE fmt = "zlib" -> ZlibHead(s) [] fmt = "gzip" -> GzipHead(s) [] OTHER -> [at |-> 0, ph |-> "block"]
Opened(fmt, s) == LET h == Head0(fmt, s) IN [Start(s, h.at) EXCEPT !.ph = h.ph]
\* what follows the data: "end" if it confirms them
Trailer(fmt, st) ==
    LET u == Used(st)
        n == CASE fmt = "zlib" -> 4 [] fmt = "gzip" -> 8 [] OTHER -> 0
        want == CASE fmt = "zlib" -> Big(Adler(st.out))
                  [] fmt = "gzip" -> Little(Crc(st.out)) \o Little(<<Len(st.out) \div 65536, Len(st.out) % 65536>>)
                  [] OTHER -> <<>>
    IN IF Len(st.src) < u + n THEN "short"
       ELSE IF SubSeq(st.src, u + 1, u + n) # want THEN "bad"
       ELSE IF Len(st.src) > u + n THEN "more"
       ELSE "end"
Verdict(fmt, st) == IF st.ph = "end" THEN Trailer(fmt, st) ELSE st.ph

-----------------------------------------------------------------------------
\* The writer: blocks [k |-> "stored", d |-> bytes] and [k |-> "fixed", y |-> symbols], a symbol being
\* [c |-> byte] as <<byte>> or a copy <<length, distance>>
RECURSIVE BitsOf(_, _)
BitsOf(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o BitsOf(v \div 2, n - 1)
RECURSIVE WordOf(_, _)
WordOf(v, n) == IF n = 0 THEN <<>> ELSE <<(v \div Pow2[n - 1]) % 2>> \o WordOf(v, n - 1)
FixedWord(s) == IF s < 144 THEN WordOf(48 + s, 8) ELSE IF s < 256 THEN WordOf(400 + (s - 144), 9)
                ELSE IF s < 280 THEN WordOf(s - 256, 7) ELSE WordOf(192 + (s - 280), 8)
LenSym(n) == IF n = 258 THEN 29 ELSE Most({i \in 1..28 : LenBase[i] <= n})
DistSym(d) == Most({i \in 1..30 : DistBase[i] <= d})
SymBits(y) == IF Len(y) = 1 THEN FixedWord(y[1])
              ELSE LET a == LenSym(y[1])  b == DistSym(y[2])
                   IN FixedWord(256 + a) \o BitsOf(y[1] - LenBase[a], LenExtra[a]) \o WordOf(b - 1, 5) \o BitsOf(y[2] - DistBase[b], DistExtra[b])
PadTo8(bits) == bits \o [i \in 1..((8 - (Len(bits) % 8)) % 8) |-> 0]
BlockBits(bits, b, last) ==
    LET h == <<IF last THEN 1 ELSE 0>> IN
    IF b.k = "stored"
    THEN PadTo8(bits \o h \o <<0, 0>>) \o BitsOf(Len(b.d), 16) \o BitsOf(65535 - Len(b.d), 16) \o Join([i \in DOMAIN b.d |-> BitsOf(b.d[i], 8)])
    ELSE bits \o h \o <<1, 0>> \o Join([i \in DOMAIN b.y |-> SymBits(b.y[i])]) \o FixedWord(256)
RECURSIVE AllBits(_, _)
AllBits(bs, bits) == IF bs = <<>> THEN bits ELSE AllBits(Tail(bs), BlockBits(bits, Head(bs), Len(bs) = 1))
Pack(bits) == LET p == PadTo8(bits) IN [i \in 1..(Len(p) \div 8) |-> LET b == 8 * (i - 1) IN
    p[b + 1] + 2 * p[b + 2] + 4 * p[b + 3] + 8 * p[b + 4] + 16 * p[b + 5] + 32 * p[b + 6] + 64 * p[b + 7] + 128 * p[b + 8]]
Deflated(bs) == Pack(AllBits(bs, <<>>))
\* what the blocks say, <<-1>> if a copy reaches before the beginning
RECURSIVE SymsMean(_, _)
SymsMean(y, out) == IF y = <<>> THEN out
                    ELSE IF Len(Head(y)) = 1 THEN SymsMean(Tail(y), Append(out, Head(y)[1]))
                    ELSE IF Head(y)[2] > Len(out) THEN <<0 - 1>>
                    ELSE SymsMean(Tail(y), CopyBack(out, Head(y)[2], Head(y)[1]))
RECURSIVE Mean(_, _)
Mean(bs, out) == IF bs = <<>> \/ out = <<0 - 1>> THEN out
                 ELSE Mean(Tail(bs), IF Head(bs).k = "stored" THEN out \o Head(bs).d ELSE SymsMean(Head(bs).y, out))
Wrapped(fmt, flags, bs, data) ==
    CASE fmt = "zlib" -> <<120, 156>> \o Deflated(bs) \o Big(Adler(data))
      [] fmt = "gzip" -> LET h == <<31, 139, 8, flags, 1, 2, 3, 4, 0, 255>>
                                  \o (IF Has1(flags, 2) THEN <<3, 0, 65, 0, 66>> ELSE <<>>)
                                  \o (IF Has1(flags, 3) THEN <<110, 0>> ELSE <<>>)
                                  \o (IF Has1(flags, 4) THEN <<99, 100, 0>> ELSE <<>>)
                             c == Crc(h)
                         IN h \o (IF Has1(flags, 1) THEN <<c[2] % 256, c[2] \div 256>> ELSE <<>>) \o Deflated(bs)
                            \o Little(Crc(data)) \o Little(<<Len(data) \div 65536, Len(data) % 65536>>)
      [] OTHER -> Deflated(bs)

-----------------------------------------------------------------------------
\* Base 16
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexDigit(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE 0 - 1
HexEnc(s) == [i \in 1..(2 * Len(s)) |-> LET b == s[(i + 1) \div 2] IN HexChar(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
HexValid(s) == Len(s) % 2 = 0 /\ \A i \in DOMAIN s : HexDigit(s[i]) >= 0
HexDec(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexDigit(s[2 * i - 1]) + HexDigit(s[2 * i])]
=============================================================================
