----------------------------- MODULE PeriodsGen -----------------------------
(***************************************************************************)
(* All pairs of dates around the ends of months of some years (Depth 1), or *)
(* all days of a leap year as well (Depth 2).                               *)
(***************************************************************************)
EXTENDS Periods, Json, SequencesExt

CONSTANT Depth

VARIABLE start

D(y, m, d) == [ok |-> TRUE, y |-> y, m |-> m, d |-> d]
Edges(y) == {D(y, m, d) : m \in 1..12, d \in {1, 2, 15, 28}} \cup {D(y, m, DaysIn(y, m) - k) : m \in 1..12, k \in 0..1}
Whole(y) == UNION {{D(y, m, d) : d \in 1..DaysIn(y, m)} : m \in 1..12}
Years == {2019, 2020}
Starts == UNION {Edges(y) : y \in Years} \cup {D(1900, 2, 28), D(2000, 2, 29), D(2100, 2, 28), D(1969, 12, 31), D(999, 1, 1)}
          \cup (IF Depth > 1 THEN Whole(2020) \cup Edges(2021) ELSE {})
Ends == Starts \cup {D(2020, 2, 27), D(2021, 1, 1)}

Char(n) == ToString(n)
Text(d) == <<Char(d.y \div 1000), Char((d.y \div 100) % 10), Char((d.y \div 10) % 10), Char(d.y % 10), "-",
             Char(d.m \div 10), Char(d.m % 10), "-", Char(d.d \div 10), Char(d.d % 10)>>

Listed(S) == SetToSeq(S)
AllEnds == Listed(Ends)

Scenario == [periods |-> <<[kind |-> "i", s |-> <<>>, e |-> Text(start)]>>
                         \o [i \in 1..Len(AllEnds) |-> [kind |-> "d", s |-> Text(start), e |-> Text(AllEnds[i])]]]

Init == start \in Starts
Next == FALSE /\ UNCHANGED start
Spec == Init /\ [][Next]_start
Emit == PrintT("JSON " \o ToJson(Scenario))
=============================================================================
