----------------------------- MODULE NumbersGen -----------------------------
(***************************************************************************)
(* Every number with up to Ints digits before and Fracs digits after the    *)
(* point over small alphabets, with every stated precision; types and units *)
(* take turns.                                                              *)
(***************************************************************************)
EXTENDS Numbers, Json, SequencesExt

CONSTANTS Ints, Fracs

VARIABLES int, dec, turn

Words(A, n) == UNION {[1..k -> A] : k \in 0..n}
Listed(S) == SetToSeq(S)

Decs == {<<"I", "N", "F">>, <<"n", "o", "n", "e">>, <<"-", "1", "2">>, <<"-", "3">>, <<"-", "1">>, <<"0">>,
         <<"1">>, <<"2">>, <<"3">>, <<"5">>, <<"1", "1">>, <<"1", "2">>}

Registry == <<[ns |-> 1, id |-> "USD", name |-> <<"D", "o", "l", "l", "a", "r">>, sym |-> <<"$">>],
              [ns |-> 1, id |-> "CHF", name |-> <<"F", "r", "a", "n", "c">>, sym |-> <<>>],
              [ns |-> 2, id |-> "USD", name |-> <<"O", "t", "h", "e", "r">>, sym |-> <<>>],
              [ns |-> 2, id |-> "shares", name |-> <<"S", "h", "a", "r", "e", "s">>, sym |-> <<>>],
              [ns |-> 3, id |-> "sqft", name |-> <<"S", "q", "u", "a", "r", "e", " ", "F", "o", "o", "t">>, sym |-> <<"f", "t">>]>>
M(ns, id) == [ns |-> ns, id |-> id]
None == M(0, "")
Units == <<[id |-> "u1", num |-> M(1, "USD"), den |-> None],
           [id |-> "u2", num |-> M(1, "CHF"), den |-> None],
           [id |-> "u3", num |-> M(2, "USD"), den |-> None],
           [id |-> "u4", num |-> M(1, "USD"), den |-> M(2, "shares")],
           [id |-> "u5", num |-> M(1, "CHF"), den |-> M(3, "sqft")],
           [id |-> "u6", num |-> M(3, "sqft"), den |-> M(2, "USD")],
           [id |-> "u7", num |-> M(3, "USD"), den |-> M(2, "shares")],
           [id |-> "u8", num |-> M(2, "shares"), den |-> M(3, "USD")]>>
Refs == <<"u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8", "nothing">>

Texts ==
  LET fracs == Listed(Words({"0", "5", "9"}, Fracs))
      Of(f, s) == s \o int \o (IF f = <<>> THEN <<>> ELSE <<".">> \o f)
  IN  Filter(Flat([i \in 1..Len(fracs) |-> <<Of(fracs[i], <<>>), Of(fracs[i], <<"-">>)>>]),
             LAMBDA t : t \notin {<<>>, <<"-">>})

Facts == LET ts == Texts
         IN  [i \in 1..Len(ts) |-> [text |-> ts[i], dec |-> dec, pct |-> (i + turn) % 4 = 0,
                                    u |-> Refs[((i + turn) % Len(Refs)) + 1]]]

Init == int \in Words({"0", "1", "9"}, Ints) /\ dec \in Decs /\ turn \in 0..1
Next == FALSE /\ UNCHANGED <<int, dec, turn>>
Spec == Init /\ [][Next]_<<int, dec, turn>>

Emit == PrintT("JSON " \o ToJson([registry |-> Registry, units |-> Units, facts |-> Facts]))
=============================================================================
