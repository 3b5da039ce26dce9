------------------------------ MODULE Folders -------------------------------
(***************************************************************************)
(* Creations of folders (C19).                                              *)
(*                                                                         *)
(* A call is [key, entry, from, to, res, id, faulted]: it lasted from one   *)
(* instant to another; res is "ok", "exists", "fail" or "killed"; a call    *)
(* is faulted if it was killed or something was refused to it.  A folder is *)
(* [id, ok, entry]: what is found afterwards under an identifier that was   *)
(* answered, ok if it can be read.                                          *)
(***************************************************************************)
EXTENDS Util

Created(calls) == {i \in 1..Len(calls) : calls[i].res = "ok"}
Known(calls) == {i \in 1..Len(calls) : calls[i].res \in {"ok", "exists"}}
Found(folders, id) == {f \in Range(folders) : f.id = id /\ f.ok}

\* one creation of a key succeeds
OneEach(calls) ==
  \A i, j \in Created(calls) : i # j => calls[i].key = "" \/ calls[i].key # calls[j].key

\* an identifier stands for one key, or for one creation without key
Identity(calls) ==
  \A i, j \in Known(calls) :
     /\ calls[i].id # ""
     /\ i # j => ((calls[i].id = calls[j].id) <=> (calls[i].key # "" /\ calls[i].key = calls[j].key))

\* whoever reports that it exists is right
Honest(calls, folders) ==
  \A i \in 1..Len(calls) : calls[i].res = "exists" =>
     /\ calls[i].key # ""
     /\ \E j \in 1..Len(calls) :
           /\ j # i /\ calls[j].key = calls[i].key /\ calls[j].from < calls[i].to
           /\ \/ calls[j].res = "ok"
              \/ calls[j].res = "killed" /\ \E f \in Found(folders, calls[i].id) : f.entry = calls[j].entry

\* what is not disturbed succeeds or reports that it exists
NoExcuse(calls) == \A i \in 1..Len(calls) : ~calls[i].faulted => calls[i].res \in {"ok", "exists"}

\* a created folder records its entry
Recorded(calls, folders) ==
  \A i \in Created(calls) : \E f \in Found(folders, calls[i].id) : f.entry = calls[i].entry

HistoryOK(calls, folders) ==
  /\ OneEach(calls) /\ Identity(calls) /\ Honest(calls, folders) /\ NoExcuse(calls) /\ Recorded(calls, folders)
=============================================================================
