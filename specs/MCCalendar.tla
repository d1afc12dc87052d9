------------------------------ MODULE MCCalendar ------------------------------
(* Walking day by day, by the rules of month lengths and weeks, meets exactly  *)
(* the dates, weekdays and ISO weeks the closed forms of Calendar give.        *)
EXTENDS Calendar
CONSTANTS First, Years
VARIABLES dn, y, m, d, w, g, v
vars == <<dn, y, m, d, w, g, v>>
Init == /\ dn = YearStart(First) /\ y = First /\ m = 1 /\ d = 1
        /\ w = Weekday(dn) /\ g = Iso(dn).g /\ v = Iso(dn).v
Tomorrow == /\ dn' = dn + 1 /\ w' = (w % 7) + 1
            /\ IF d < Lengths(y)[m] THEN d' = d + 1 /\ UNCHANGED <<y, m>>
               ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y
               ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
            \* a new week begins on Monday; it is week 1 if it holds a 4th of January
            /\ IF w < 7 THEN UNCHANGED <<g, v>>
               ELSE IF (m' = 1 /\ d' <= 4) \/ (m' = 12 /\ d' >= 29) THEN g' = g + 1 /\ v' = 1
               ELSE v' = v + 1 /\ UNCHANGED g
Next == y < First + Years /\ Tomorrow
Spec == Init /\ [][Next]_vars
Same == /\ Civil(dn) = [y |-> y, m |-> m, d |-> d, o |-> dn - YearStart(y) + 1]
        /\ DayNumber(y, m, d) = dn /\ Real(y, m, d)
        /\ Weekday(dn) = w /\ Iso(dn) = [g |-> g, v |-> v]
        /\ IsoDay(g, v, w) = dn /\ v \in 1..IsoWeeks(g)
Epoch == (y = 1970 /\ m = 1 /\ d = 1) => dn = 0 /\ w = 4
\* arithmetic: adding and taking away, and carrying over days
Times == {[d |-> dn, s |-> s, n |-> n] : s \in {0, 86399}, n \in {0, 1, 999999999}}
Inverse == dn % 97 = 0 => \A a, b \in Times : Minus(Plus(a, b), b) = a /\ Plus(a, b) = Plus(b, a) /\ (Leq(a, b) \/ Leq(b, a))
ReadsBack == dn % 31 = 0 => \A t \in {x \in Times : x.n = 0} :
               /\ Read(Fields(t), <<"%F", "%T">>) = [ok |-> TRUE, d |-> t.d, s |-> t.s, n |-> 0]
               /\ Read(Fields(t), <<"%G", "%V", "%u", "%T">>) = [ok |-> TRUE, d |-> t.d, s |-> t.s, n |-> 0]
               /\ Read(Fields(t), <<"%Y", "%j", "%T">>) = [ok |-> TRUE, d |-> t.d, s |-> t.s, n |-> 0]
=============================================================================
