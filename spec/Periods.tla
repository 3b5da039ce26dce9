------------------------------ MODULE Periods ------------------------------
(***************************************************************************)
(* How the period of a context is shown.  A period is [kind, s, e]: kind    *)
(* "i" has the instant e, "d" the dates s and e; texts are sequences of     *)
(* one-character strings as filed.                                          *)
(***************************************************************************)
EXTENDS Numbers

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* days since the beginning of the calendar
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + DaysBefore(y, m - 1)
DayNumber(d) == LET p == d.y - 1
                IN  p * 365 + (p \div 4) - (p \div 100) + (p \div 400) + DaysBefore(d.y, d.m) + d.d

NoDate == [ok |-> FALSE, y |-> 0, m |-> 0, d |-> 0]
Date(t) ==
  IF Len(t) # 10 \/ t[5] # "-" \/ t[8] # "-" \/ ~({t[i] : i \in {1, 2, 3, 4, 6, 7, 9, 10}} \subseteq Digits) THEN NoDate
  ELSE LET y == WholeValue(SubSeq(t, 1, 4)) m == WholeValue(SubSeq(t, 6, 7)) d == WholeValue(SubSeq(t, 9, 10))
       IN  IF m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m) THEN [ok |-> TRUE, y |-> y, m |-> m, d |-> d] ELSE NoDate

Days(a, b) == DayNumber(b) - DayNumber(a)
\* calendar months touched
Months(a, b) == (b.y * 12 + b.m) - (a.y * 12 + a.m) + 1

--------------------------------------------------------------------------
EnglishMonth == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
SpanishMonth == <<"enero", "febrero", "marzo", "abril", "mayo", "junio", "julio", "agosto", "septiembre", "octubre", "noviembre", "diciembre">>

Padded(n, w) == LET s == ToString(n)
                IN  CASE w = 4 /\ n < 10 -> "000" \o s [] w = 4 /\ n < 100 -> "00" \o s [] w = 4 /\ n < 1000 -> "0" \o s
                      [] w = 2 /\ n < 10 -> "0" \o s [] OTHER -> s
RECURSIVE Joined(_)
Joined(t) == IF t = <<>> THEN "" ELSE t[1] \o Joined(Tail(t))

EnglishDate(d) == EnglishMonth[d.m] \o " " \o ToString(d.d) \o ", " \o Padded(d.y, 4)
SpanishDate(d) == Padded(d.d, 2) \o " " \o SpanishMonth[d.m] \o " " \o ToString(d.y)

Raw(p) ==
  CASE p.kind = "d" /\ Trim(p.s) # <<>> /\ Trim(p.e) # <<>> -> Trim(p.s) \o <<"/">> \o Trim(p.e)
    [] p.kind = "i" -> Trim(p.e)
    [] OTHER -> <<>>

English(p) ==
  LET a == Date(Trim(p.s)) b == Date(Trim(p.e))
  IN  CASE p.kind = "i" /\ b.ok -> "as of " \o EnglishDate(b)
        [] p.kind = "d" /\ a.ok /\ b.ok /\ Days(a, b) >= 30 ->
             (IF Months(a, b) = 1 THEN "1 month ended " ELSE ToString(Months(a, b)) \o " months ended ") \o EnglishDate(b)
        [] OTHER -> Joined(Raw(p))
Spanish(p) ==
  LET a == Date(Trim(p.s)) b == Date(Trim(p.e))
  IN  CASE p.kind = "i" /\ b.ok -> "al " \o SpanishDate(b)
        [] p.kind = "d" /\ a.ok /\ b.ok /\ Days(a, b) >= 30 ->
             (IF Months(a, b) = 1 THEN "un mes terminado al " ELSE ToString(Months(a, b)) \o " meses terminados al ") \o SpanishDate(b)
        [] OTHER -> Joined(Raw(p))

\* o is [pure, en, es], one header of a context with period p
HeaderOK(p, o) == o.pure = Joined(Raw(p)) /\ o.en = English(p) /\ o.es = Spanish(p)

\* Known deviation: in grids the text of an instant is taken for a duration
\* where it holds a slash.
Slashed(p) == p.kind = "i" /\ IndexOf(Trim(p.e), "/") > 1
AsDuration(p) == LET t == Trim(p.e) i == IndexOf(t, "/")
                 IN  [kind |-> "d", s |-> SubSeq(t, 1, i - 1), e |-> SubSeq(t, i + 1, Len(t))]
HeaderDeviant(p, o) == /\ Slashed(p)
                       /\ o.pure = Joined(Raw(p))
                       /\ LET q == AsDuration(p) IN o.en = English(q) /\ o.es = Spanish(q)
=============================================================================
