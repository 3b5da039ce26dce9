----------------------------- MODULE DamageGen ------------------------------
(***************************************************************************)
(* Every single damage to a folder (C02): files removed or replaced, tags,  *)
(* elements, attributes and texts removed, repeated, hollowed or changed to *)
(* every value of a list.  at counts through the folder, v through the      *)
(* values; the driver goes around where the folder has fewer.  Folders of   *)
(* kind "good" are generated; the one of kind "rich" is written by hand and *)
(* has a little of everything.                                              *)
(***************************************************************************)
EXTENDS Service, Json

CONSTANTS Kind, Seeds, Tags, Attrs, Values

VARIABLE start

Op(op, at, v) == [op |-> op, at |-> at, v |-> v]
None == [k |-> "", f |-> 0, n |-> 0, bent |-> "", via |-> "", method |-> ""]
Single ==
  \/ \E o \in {"rmfile", "dirfile"}, at \in 0..11 : start = Op(o, at, 0)
  \/ \E at \in 0..11, v \in 0..29 : start = Op("content", at, v)
  \/ \E at \in 0..11, v \in 0..11 : start = Op("copyfile", at, v)
  \/ \E at \in 0..11, v \in 1..63 : start = Op("trunc", at, v)
  \/ \E o \in {"deltag", "deltree", "duptree", "nest", "hollow", "bare"}, at \in 0..Tags : start = Op(o, at, 0)
  \/ \E at \in 0..Tags, v \in 0..12 : start = Op("retag", at, v)
  \/ \E at \in 0..Attrs : start = Op("delattr", at, 0)
  \/ \E at \in 0..Attrs, v \in 0..Values : start = Op("attr", at, v)
  \/ \E at \in 0..Attrs, v \in 0..7 : start = Op("attrname", at, v)
  \/ \E at \in 0..(Tags \div 4), v \in 0..Values : start = Op("text", at, v)
  \/ \E v \in 0..6 : start = Op("extra", 0, v)

VARIABLE seed
Init == Single /\ seed \in 1..Seeds
Next == FALSE /\ UNCHANGED <<start, seed>>
Spec == Init /\ [][Next]_<<start, seed>>
Emit == PrintT("JSON " \o ToJson([seed |-> seed, kind |-> Kind, ops |-> <<start>>, request |-> None]))
=============================================================================
