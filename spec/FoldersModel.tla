---------------------------- MODULE FoldersModel ----------------------------
(***************************************************************************)
(* The protocol behind creations: look whether the folder exists, complete  *)
(* it under a name of its own, move it to its place unless that is taken.   *)
(* Creators interleave freely, a step may be refused to one of them and all *)
(* who are under way may be killed at once.  Whatever happens, the history  *)
(* is right, and a creation at the end still is.                            *)
(***************************************************************************)
EXTENDS Folders, SequencesExt

CONSTANTS Creators, Atomic   \* Atomic FALSE: the folder is made in its place and completed there

VARIABLES key,        \* creator -> key
          pc, calls,  \* creator -> its call; calls in the order they began
          place,      \* identifier -> entry, "" if incomplete
          faults, clock

vars == <<key, pc, calls, place, faults, clock>>

Entry(c) == ToString(c)
Id(c) == IF key[c] = "" THEN "own" \o ToString(c) ELSE key[c]
Mine(c) == CHOOSE i \in 1..Len(calls) : calls[i].entry = Entry(c)
Go(c, where) == pc' = [pc EXCEPT ![c] = where]
End(c, res, faulted) ==
  /\ clock' = clock + 1
  /\ calls' = [calls EXCEPT ![Mine(c)] = [@ EXCEPT !.to = clock', !.res = res, !.faulted = faulted, !.id = IF res = "fail" THEN "" ELSE Id(c)]]
  /\ Go(c, "done")

Init == /\ key \in [1..Creators -> {"", "k", "j"}]
        /\ pc = [c \in 1..Creators |-> "idle"]
        /\ calls = <<>> /\ place = <<>> /\ faults = 0 /\ clock = 0

Begin(c) == /\ pc[c] = "idle"
            \* the last creator probes what the others left
            /\ c = Creators => \A d \in 1..(c - 1) : pc[d] = "done"
            /\ clock' = clock + 1
            /\ calls' = Append(calls, [key |-> key[c], entry |-> Entry(c), from |-> clock', to |-> 0, res |-> "", id |-> "", faulted |-> FALSE])
            /\ Go(c, "look") /\ UNCHANGED <<key, place, faults>>
Look(c) == /\ pc[c] = "look"
           /\ IF Id(c) \in DOMAIN place THEN End(c, "exists", FALSE) /\ UNCHANGED <<key, place, faults>>
              ELSE Go(c, IF Atomic THEN "draft" ELSE "make") /\ UNCHANGED <<key, calls, place, faults, clock>>
Draft(c) == pc[c] = "draft" /\ Go(c, "write") /\ UNCHANGED <<key, calls, place, faults, clock>>
Write(c) == pc[c] = "write" /\ Go(c, "move") /\ UNCHANGED <<key, calls, place, faults, clock>>
Move(c) == /\ pc[c] = "move"
           /\ IF Id(c) \in DOMAIN place THEN place' = place /\ End(c, "exists", FALSE)
              ELSE place' = (Id(c) :> Entry(c)) @@ place /\ End(c, "ok", FALSE)
           /\ UNCHANGED <<key, faults>>
\* the other protocol
Make(c) == /\ pc[c] = "make"
           /\ IF Id(c) \in DOMAIN place THEN place' = place /\ End(c, "exists", FALSE)
              ELSE place' = (Id(c) :> "") @@ place /\ Go(c, "fill") /\ UNCHANGED <<calls, clock>>
           /\ UNCHANGED <<key, faults>>
Fill(c) == /\ pc[c] = "fill"
           /\ place' = [place EXCEPT ![Id(c)] = Entry(c)] /\ End(c, "ok", FALSE) /\ UNCHANGED <<key, faults>>

Underway == {c \in 1..Creators : pc[c] \notin {"idle", "done"}}
Refuse(c) == /\ faults < 1 /\ faults' = faults + 1
             /\ c \in Underway /\ pc[c] # "look" /\ c # Creators
             /\ End(c, "fail", TRUE) /\ UNCHANGED <<key, place>>
Kill == /\ faults < 1 /\ faults' = faults + 1
        /\ Underway # {} /\ Creators \notin Underway
        /\ clock' = clock + 1
        /\ calls' = [i \in 1..Len(calls) |-> IF calls[i].to # 0 THEN calls[i]
                                             ELSE [calls[i] EXCEPT !.to = clock', !.res = "killed", !.faulted = TRUE]]
        /\ pc' = [c \in 1..Creators |-> IF c \in Underway THEN "done" ELSE pc[c]]
        /\ UNCHANGED <<key, place>>

Next == (\E c \in 1..Creators : Begin(c) \/ Look(c) \/ Draft(c) \/ Write(c) \/ Move(c) \/ Make(c) \/ Fill(c) \/ Refuse(c)) \/ Kill
        \/ ((\A c \in 1..Creators : pc[c] = "done") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == \A c \in 1..Creators : pc[c] = "done"
Folders == LET ids == DOMAIN place IN {[id |-> i, ok |-> place[i] # "", entry |-> place[i]] : i \in ids}
Right == Over => HistoryOK(calls, SetToSeq(Folders))
Ends == <>Over
=============================================================================
