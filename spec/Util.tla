-------------------------------- MODULE Util --------------------------------
(* Sequence and bag helpers used by all modules. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* number of occurrences of x in s
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

\* the two sequences are permutations of each other
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A x \in Range(s) : Count(s, x) = Count(t, x)

NoDup(s) == Cardinality(Range(s)) = Len(s)

\* ascending by key(e), ties in the original order
StableSort(s, key(_)) ==
  LET idx == SortSeq([i \in 1..Len(s) |-> i],
                     LAMBDA i, j : IF key(s[i]) = key(s[j]) THEN i < j
                                   ELSE key(s[i]) < key(s[j]))
  IN  [i \in 1..Len(s) |-> s[idx[i]]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* the elements of s with P, in order
Filter(s, P(_)) == SelectSeq(s, P)

Map(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]

RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
       IN  <<m>> \o SetToSortedSeq(S \ {m})

\* first occurrences only
RECURSIVE DedupSeq(_)
DedupSeq(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET front == SubSeq(s, 1, Len(s) - 1)
           d == DedupSeq(front)
       IN  IF s[Len(s)] \in Range(front) THEN d ELSE Append(d, s[Len(s)])
=============================================================================
