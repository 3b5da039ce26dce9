----------------------------- MODULE FoldersGen -----------------------------
(***************************************************************************)
(* "race": all schedules of up to Depth steps of two creators (three if the *)
(* keys are three), who then go on to the end one after the other.          *)
(* "fault": every kind of fault before every call of a creator, alone or    *)
(* after a few steps of another one.  A last round creates every key again. *)
(* "keys": all pairs of keys that differ little: in length, at the start or  *)
(* the end, in case or in spaces, short and of up to 2^Depth characters.     *)
(***************************************************************************)
EXTENDS Folders, Json

CONSTANTS Family, Depth

VARIABLE start

Words(S, k) == [1..k -> S]
Call(k, e) == [key |-> k, entry |-> e]
None == [who |-> 0, at |-> 0, kind |-> ""]
Afterwards == [creators |-> <<<<Call("k", "l1"), Call("j", "l2"), Call("", "l3"), Call("k", "l4")>>>>, sched |-> <<>>, fault |-> None, free |-> FALSE]
Round(keys, sched, fault) ==
  [creators |-> [i \in 1..Len(keys) |-> [j \in 1..Len(keys[i]) |-> Call(keys[i][j], "e" \o ToString(i) \o ToString(j))]],
   sched |-> sched, fault |-> fault, free |-> FALSE]

Race == \/ \E keys \in {<<<<"k">>, <<"k">>>>, <<<<"k">>, <<"j">>>>, <<<<"">>, <<"">>>>}, s \in Words(1..2, Depth) : start = Round(keys, s, None)
        \/ \E s \in Words(1..3, (2 * Depth) \div 3) : start = Round(<<<<"k">>, <<"k">>, <<"k">>>>, s, None)
Fault == \E keys \in {<<<<"k", "k">>, <<"k">>>>, <<<<"k", "j">>, <<"j", "k">>>>, <<<<"", "k">>, <<"">>>>},
            d \in 0..Depth, n \in 1..14, k \in {"kill", "eio", "enospc", "eacces", "emfile", "full", "short"} :
         \E s \in Words(1..2, d) : start = Round(keys, s, [who |-> 1, at |-> n, kind |-> k])

RECURSIVE Doubled(_, _)
Doubled(s, n) == IF n = 0 THEN s ELSE Doubled(s \o s, n - 1)
Near(base) == {base, base \o "1", base \o "2", "1" \o base, "2" \o base, base \o base, base \o " ", " " \o base, base \o "/", base \o ".",
               base \o "1" \o base, base \o "2" \o base, base \o "Aa", base \o "aA"}
Keys == UNION {{<<a, b>> \in Near(Doubled("k", d)) \X Near(Doubled("k", d)) : a # b} : d \in 0..Depth}
KeyPairs == \E p \in Keys : start = Round(<<<<p[1], p[2], p[1]>>>>, <<>>, None)

Init == IF Family = "keys" THEN KeyPairs ELSE IF Family = "race" THEN Race ELSE Fault
Next == FALSE /\ UNCHANGED start
Spec == Init /\ [][Next]_start
Emit == PrintT("JSON " \o ToJson([rounds |-> <<start, Afterwards>>]))
=============================================================================
