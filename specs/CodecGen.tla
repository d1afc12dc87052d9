------------------------------- MODULE CodecGen -------------------------------
(* Compressed streams no compressor need write: any mix of stored and fixed   *)
(* blocks, all wrapper flags, cut, damaged or followed by more; texts in      *)
(* base 16 and base 64, whole and damaged.                                    *)
EXTENDS Deflate, TLC, Json
CONSTANTS Len0
VARIABLE hist
R(S) == RandomElement(S)
Byte(h) == R({0, 10, 32, 65, 97, 143, 144, 255, R(0..255)})
Sym(h) == IF R(1..3) < 3 THEN <<Byte(h)>> ELSE <<R({3, 4, 5, 10, 11, 13, 50, 114, 115, 130, 227, 257, 258}), R({1, 1, 2, 3, 4, 5, 6, 8, 9, 13})>>
\* literals first, so that most copies find something
Syms(h) == LET a == R(0..4)  b == R(0..8) IN [i \in 1..a |-> <<Byte(h)>>] \o [i \in 1..b |-> Sym(h)]
Blk(h) == IF R(1..3) = 1 THEN [k |-> "stored", d |-> [i \in 1..R(0..9) |-> Byte(h)]] ELSE [k |-> "fixed", y |-> Syms(h)]
Hit(h, s) == IF s = <<>> THEN s ELSE LET i == R(1..Len(s)) IN [s EXCEPT ![i] = (@ + R({1, 2, 16, 128, 255})) % 256]
Harm(h, s) == LET w == R({"none", "none", "cut", "hit", "late", "more", "early"})
              IN CASE w = "cut" -> Take(s, R(0..Len(s)))
                   [] w = "hit" -> Hit(h, s)
                   [] w = "early" -> LET n == R(1..12) IN Hit(h, Take(s, n)) \o Drop(s, n)
                   [] w = "late" -> LET n == Len(s) - R(1..8) IN IF n < 0 THEN s ELSE Take(s, n) \o Hit(h, Drop(s, n))
                   [] w = "more" -> s \o [i \in 1..R(1..5) |-> Byte(h)]
                   [] OTHER -> s
\* a copy from before the beginning: no data
Known(d) == IF d = <<0 - 1>> THEN <<>> ELSE d
Stream(h) == LET bs == TLCEval([i \in 1..R(1..3) |-> TLCEval(Blk(h))])
                 d == Known(Mean(bs, <<>>))
                 f == R({"deflate", "zlib", "gzip"})
             IN [op |-> "inflate", fmt |-> f, data |-> Harm(h, Wrapped(f, R({0, 0, 2, 4, 8, 16, 24, 30}), bs, d))]
Raw(h) == [i \in 1..R(0..12) |-> Byte(h)]
Text(h, s) == LET w == R({"none", "none", "hit", "cut", "more", "set", "case"})
              IN CASE w = "hit" -> IF s = <<>> THEN s ELSE LET i == R(1..Len(s)) IN [s EXCEPT ![i] = (@ + R({1, 2, 16})) % 128]
                   [] w = "cut" -> Take(s, R(0..Len(s)))
                   [] w = "more" -> s \o <<R({61, 32, 10, 65, 45, 95, 48, 103})>>
                   [] w = "set" -> IF s = <<>> THEN <<61>> ELSE [s EXCEPT ![R(1..Len(s))] = R({61, 32, 45, 95, 64, 91, 96, 123, 58, 71, 103, 47, 43, 44, 46})]
                   [] w = "case" -> [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
                   [] OTHER -> s
Item(h) == CASE R(1..6) = 1 -> [op |-> "hex", data |-> LET r == TLCEval(Raw(h)) IN Text(h, HexEnc(r))]
             [] R(1..5) = 1 -> [op |-> "b64", data |-> LET r == TLCEval(Raw(h)) IN Text(h, B64Enc(r))]
             [] R(1..8) = 1 -> [op |-> "squeeze", data |-> Known(Mean(<<[k |-> "fixed", y |-> TLCEval(Syms(h))]>>, <<>>))]
             [] OTHER -> Stream(h)
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {Item(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
