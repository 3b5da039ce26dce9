------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* What the expression of a numeric fact may be.  Texts are sequences of    *)
(* one-character strings, so that numbers of any length are read, cut off   *)
(* and compared digit by digit.                                             *)
(*                                                                         *)
(*   registry  sequence of [ns, id, name, sym]                              *)
(*   units     sequence of [id, num, den] with num and den [ns, id] or      *)
(*             [ns |-> 0, id |-> ""] for none                               *)
(*   fact      [text, dec, pct, u]: the text as filed, the decimals         *)
(*             attribute as filed ("none" when absent), whether the type is *)
(*             the percent type, and the unit reference                     *)
(***************************************************************************)
EXTENDS Util

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
White == {" ", "\n", "\t", "\r"}
DigitValue(c) == CHOOSE n \in 0..9 : ToString(n) = c

RECURSIVE TrimLeft(_)
TrimLeft(t) == IF t # <<>> /\ t[1] \in White THEN TrimLeft(Tail(t)) ELSE t
RECURSIVE TrimRight(_)
TrimRight(t) == IF t # <<>> /\ t[Len(t)] \in White THEN TrimRight(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trim(t) == TrimRight(TrimLeft(t))

RECURSIVE DropZeros(_)
DropZeros(t) == IF t # <<>> /\ t[1] = "0" THEN DropZeros(Tail(t)) ELSE t
RECURSIVE DropLastZeros(_)
DropLastZeros(t) == IF t # <<>> /\ t[Len(t)] = "0" THEN DropLastZeros(SubSeq(t, 1, Len(t) - 1)) ELSE t

IndexOf(t, c) == IF c \in Range(t) THEN CHOOSE i \in 1..Len(t) : t[i] = c /\ \A j \in 1..(i - 1) : t[j] # c ELSE 0

(* A decimal number: sign, digits before and digits after the point. *)
NoNumber == [ok |-> FALSE, neg |-> FALSE, int |-> <<>>, frac |-> <<>>]
Unsigned(t, neg) ==
  LET dot == IndexOf(t, ".")
      int == IF dot = 0 THEN t ELSE SubSeq(t, 1, dot - 1)
      frac == IF dot = 0 THEN <<>> ELSE SubSeq(t, dot + 1, Len(t))
  IN  IF Len(int) + Len(frac) > 0 /\ Range(int) \cup Range(frac) \subseteq Digits
      THEN [ok |-> TRUE, neg |-> neg, int |-> int, frac |-> frac]
      ELSE NoNumber
Decimal(t) ==
  IF t = <<>> THEN NoNumber
  ELSE IF t[1] = "-" THEN Unsigned(Tail(t), TRUE)
  ELSE IF t[1] = "+" THEN Unsigned(Tail(t), FALSE)
  ELSE Unsigned(t, FALSE)

\* the number without meaningless zeros; zero has no sign
Normal(x) ==
  LET i == DropZeros(x.int) f == DropLastZeros(x.frac)
  IN  [neg |-> x.neg /\ Len(i) + Len(f) > 0, int |-> i, frac |-> f]

Hundredfold(x) ==
  LET f == x.frac \o <<"0", "0">>
  IN  [x EXCEPT !.int = @ \o SubSeq(f, 1, 2), !.frac = SubSeq(f, 3, Len(f))]

\* the digits after the k-th decimal place dropped; before the point when k < 0
CutOff(x, k) ==
  IF k >= 0 THEN [x EXCEPT !.frac = SubSeq(@, 1, Min2(k, Len(@)))]
  ELSE [x EXCEPT !.frac = <<>>,
                 !.int = [i \in 1..Len(@) |-> IF i > Len(@) + k THEN "0" ELSE @[i]]]

--------------------------------------------------------------------------
(* The decimals attribute. *)

WholeText(t) == LET x == Decimal(t) IN x.ok /\ "." \notin Range(t)
RECURSIVE WholeValue(_)
WholeValue(t) == IF t = <<>> THEN 0 ELSE 10 * WholeValue(SubSeq(t, 1, Len(t) - 1)) + DigitValue(t[Len(t)])

\* "inf", a number of digits that can be applied, or "verbatim"
Stated(dec) ==
  CASE dec = <<"I", "N", "F">> -> [kind |-> "inf", n |-> 0]
    [] dec # <<"I", "N", "F">> /\ WholeText(dec) /\ Len(Normal(Decimal(dec)).int) <= 2 ->
         LET x == Normal(Decimal(dec)) n == WholeValue(x.int)
         IN  IF n >= 12 THEN [kind |-> "verbatim", n |-> 0]
             ELSE [kind |-> "digits", n |-> IF x.neg THEN -n ELSE n]
    [] OTHER -> [kind |-> "verbatim", n |-> 0]

--------------------------------------------------------------------------
(* Units. *)

Registered(reg, m) == {i \in 1..Len(reg) : reg[i].ns = m.ns /\ reg[i].id = m.id}
UnitOf(units, u) == {i \in 1..Len(units) : units[i].id = u}

\* symbol or name
Short(reg, m) == LET r == reg[CHOOSE i \in Registered(reg, m) : TRUE] IN IF r.sym # <<>> THEN r.sym ELSE r.name

Known(reg, units, u) ==
  /\ UnitOf(units, u) # {}
  /\ Registered(reg, units[CHOOSE i \in UnitOf(units, u) : TRUE].num) # {}

\* what stands before the digits and after them
Before(reg, units, fact) ==
  IF ~Known(reg, units, fact.u) THEN <<>>
  ELSE LET m == units[CHOOSE i \in UnitOf(units, fact.u) : TRUE].num
           r == reg[CHOOSE i \in Registered(reg, m) : TRUE]
       IN  IF r.sym = <<>> THEN <<>> ELSE r.sym \o <<" ">>
After(reg, units, fact) ==
  (IF fact.pct THEN <<"%">> ELSE <<>>) \o
  (IF ~Known(reg, units, fact.u) THEN <<>>
   ELSE LET unit == units[CHOOSE i \in UnitOf(units, fact.u) : TRUE]
            r == reg[CHOOSE i \in Registered(reg, unit.num) : TRUE]
        IN  <<" ">> \o (IF r.sym = <<>> /\ ~fact.pct THEN r.name ELSE <<>>)
            \o (IF Registered(reg, unit.den) = {} THEN <<>> ELSE <<"/">> \o Short(reg, unit.den)))

--------------------------------------------------------------------------
(* Reading an expression back. *)

\* digit groups, where there are any, are groups of three
Grouped(int, g) ==
  LET n == Len(int)
  IN  \A i \in 1..n : int[i] = g => /\ i > 1 /\ (n - i) % 4 = 3
                                    /\ \A j \in 1..n : (int[j] = g) <=> (j > 1 /\ (n - j) % 4 = 3)

\* the number shown, with digits grouped by g; in brackets when negative
Shown(t, g) ==
  LET brackets == Len(t) >= 2 /\ t[1] = "(" /\ t[Len(t)] = ")"
      body == IF brackets THEN SubSeq(t, 2, Len(t) - 1) ELSE t
      dot == IndexOf(body, ".")
      int == IF dot = 0 THEN body ELSE SubSeq(body, 1, dot - 1)
      rest == IF dot = 0 THEN <<>> ELSE SubSeq(body, dot, Len(body))
      plain == Filter(int, LAMBDA c : c # g) \o rest
      x == IF brackets THEN Unsigned(plain, TRUE) ELSE Decimal(plain)
  IN  IF x.ok /\ Grouped(int, g) THEN x ELSE NoNumber

StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
EndsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p

\* the expression t, in the language that groups digits with g
ExpressionOK(reg, units, fact, t, g) ==
  LET value == Decimal(Trim(fact.text))
      st == Stated(fact.dec)
      b == Before(reg, units, fact)
      a == After(reg, units, fact)
  IN  IF st.kind = "verbatim" \/ ~value.ok THEN t = fact.text
      ELSE /\ StartsWith(t, b) /\ EndsWith(t, a) /\ Len(t) >= Len(a) + Len(b)
           /\ LET s == Shown(SubSeq(t, Len(b) + 1, Len(t) - Len(a)), g)
                  v == IF fact.pct THEN Hundredfold(value) ELSE value
                  least == IF fact.pct THEN st.n - 2 ELSE st.n
              IN  /\ s.ok
                  /\ \/ Normal(s) = Normal(v)
                     \/ /\ st.kind = "digits"
                        /\ \E k \in least..Max2(least, Len(v.frac)) : Normal(s) = Normal(CutOff(v, k))

\* e is [pure, en, es, one]: the grid's three languages and the single fact
FactOK(reg, units, fact, e) ==
  /\ ExpressionOK(reg, units, fact, e.pure, ",")
  /\ e.en = e.pure
  /\ ExpressionOK(reg, units, fact, e.es, " ")
  \* languages differ only in grouping
  /\ Filter(e.es, LAMBDA c : c # " ") = Filter(e.en, LAMBDA c : c \notin {" ", ","})
     \/ "," \in UNION {Range(r.name) \cup Range(r.sym) : r \in Range(reg)} \cup Range(fact.text)
  /\ e.one = e.pure
=============================================================================
