------------------------------ MODULE PoolGen ------------------------------
(* Scripts for the pool: an abstract run of PoolAbs with the user's choices  *)
(* made visible.  Tasks are gated (they end when released), quick, panicking *)
(* or nested (they submit another task through their own handle).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Depth, MaxSize, MaxCap, MayDrop
VARIABLES hist, n, gated, handles
vars == <<hist, n, gated, handles>>
Init == /\ \E s \in {RandomElement(1..MaxSize)}, c \in {RandomElement(1..MaxCap)} :
              hist = <<[op |-> "pool", size |-> s, cap |-> c]>>
        /\ n = 0 /\ gated = {} /\ handles = {1}
Submit == \E k \in {RandomElement(Kinds)}, h \in {RandomElement(handles)} :
            /\ hist' = Append(hist, [op |-> "submit", t |-> n + 1, k |-> k, h |-> h])
            /\ n' = n + 1 /\ gated' = (IF k \in {"gate", "gatepanic"} THEN gated \cup {n + 1} ELSE gated)
            /\ UNCHANGED handles
Release == \E t \in {RandomElement(gated)} :
            /\ hist' = Append(hist, [op |-> "release", t |-> t]) /\ gated' = gated \ {t} /\ UNCHANGED <<n, handles>>
Settle == hist' = Append(hist, [op |-> "settle"]) /\ UNCHANGED <<n, gated, handles>>
Clone == \E h \in {RandomElement(handles)} : LET c == Cardinality(handles) + Len(hist) IN
            /\ hist' = Append(hist, [op |-> "clone", h |-> h, to |-> c]) /\ handles' = handles \cup {c} /\ UNCHANGED <<n, gated>>
Drop == \E h \in {RandomElement(handles)} :
            /\ hist' = Append(hist, [op |-> "drop", h |-> h]) /\ handles' = handles \ {h} /\ UNCHANGED <<n, gated>>
Next == LET r == RandomElement(1..20) IN
        IF handles # {} /\ r <= 10 THEN Submit
        ELSE IF r <= 13 /\ gated # {} THEN Release
        ELSE IF r <= 15 THEN Settle
        ELSE IF r <= 17 /\ handles # {} /\ Cardinality(handles) < 4 THEN Clone
        ELSE IF r <= 19 /\ (Cardinality(handles) > 1 \/ (MayDrop /\ Len(hist) > Depth \div 2 /\ handles # {})) THEN Drop
        ELSE Settle
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
