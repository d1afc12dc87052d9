------------------------------ MODULE MCDeflate ------------------------------
(* Everything the writer writes is read as what it means, one symbol at a    *)
(* time; cut short it is never read to its end; a damaged byte of a wrapped  *)
(* stream is never accepted with other data.                                 *)
EXTENDS Deflate, TLC
CONSTANTS MaxBlocks, MaxSyms, Fmts, Flags, Damage
VARIABLES bs, fmt, flags, cut, hit, st
vars == <<bs, fmt, flags, cut, hit, st>>
Syms == {<<0>>, <<150>>, <<3, 1>>, <<4, 2>>, <<258, 1>>}
Blocks == {[k |-> "stored", d |-> d] : d \in {<<>>, <<7>>, <<200, 0>>}}
          \cup {[k |-> "fixed", y |-> y] : y \in UNION {[1..n -> Syms] : n \in 0..MaxSyms}}
Data == Mean(bs, <<>>)
Whole == Wrapped(fmt, flags, bs, Data)
Init == /\ bs \in UNION {[1..n -> Blocks] : n \in 1..MaxBlocks} /\ Data # <<0 - 1>>
        /\ fmt \in Fmts
        /\ flags \in (IF fmt = "gzip" THEN Flags ELSE {0})
        /\ cut \in 0..Len(Whole) /\ (Damage => cut = Len(Whole))
        /\ hit \in (IF Damage THEN (1..Len(Whole)) \X {1, 16, 128} ELSE {<<0, 0>>})
        /\ st = Opened(fmt, LET w == Take(Whole, cut) IN IF hit[1] = 0 THEN w ELSE [w EXCEPT ![hit[1]] = @ ^^ hit[2]])
Next == /\ ~Halted(st) /\ st' = Step(st) /\ UNCHANGED <<bs, fmt, flags, cut, hit>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends2 == <>Halted(st)
V == Verdict(fmt, st)
Read == Halted(st) /\ ~Damage =>
    IF cut = Len(Whole) THEN V = "end" /\ st.out = Data
    ELSE V \in {"short"} /\ st.out = Take(Data, Len(st.out))
\* only a raw stream can be read as something else when damaged: a single byte of difference changes either checksum
Hurt == Halted(st) /\ Damage /\ fmt # "deflate" => (V \in {"end", "more"} => st.out = Data)
Finished == Halted(st) => Finish(Opened(fmt, st.src)) = st
\* reading never goes back and never outruns the input
Within == st.k <= NBits(st.src) + 8
Forth == [][st'.k >= st.k /\ Take(st'.out, Len(st.out)) = st.out]_vars
ASSUME Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<52212, 14630>>       \* CBF43926, the check value of the checksum
ASSUME Adler(<<87, 105, 107, 105, 112, 101, 100, 105, 97>>) = <<4582, 920>>  \* 11E60398
ASSUME \A b \in 0..255 : HexDec(HexEnc(<<b, 255 - b>>)) = <<b, 255 - b>> /\ HexValid(HexEnc(<<b>>))
ASSUME Fullness(FixedCode) = 0
=============================================================================
