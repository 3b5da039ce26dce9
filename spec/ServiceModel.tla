---------------------------- MODULE ServiceModel ----------------------------
(***************************************************************************)
(* The cache behind the service: a request looks for its answer, then for   *)
(* the hydrated folder, computes what is missing, answers, and leaves what  *)
(* it computed to be stored later.  Whatever the overlap, answers are those *)
(* without a cache - if the keys of different requests differ and failures  *)
(* are not stored.                                                          *)
(***************************************************************************)
EXTENDS Util

CONSTANTS Clients, Rounds,
          Joined,        \* keys are the parts written one after the other
          StoreFailures

VARIABLES pc, req, left,   \* client -> where it is, its request, how many more
          has,             \* client -> hydrated folder it works with
          store,           \* key -> value
          pending,         \* writes to come
          answer           \* client -> its last answer

vars == <<pc, req, left, has, store, pending, answer>>

\* folders a and ab are there, b is not; addresses bc and c
Requests == {<<"a", "bc">>, <<"ab", "c">>, <<"a", "c">>, <<"b", "c">>, <<"a", "">>}
Right(r) == IF r[1] = "b" \/ r = <<"a", "c">> THEN "error" ELSE r[1] \o ":" \o r[2]
AnswerKey(r) == IF Joined THEN r[1] \o r[2] ELSE <<"answer", r[1], r[2]>>
FolderKey(r) == IF Joined THEN r[1] ELSE <<"folder", r[1]>>
Get(k) == {e.v : e \in {x \in store : x.k = k}}
Put(k, v) == {e \in store : e.k # k} \cup {[k |-> k, v |-> v]}

Init == /\ pc = [c \in 1..Clients |-> "idle"] /\ req = [c \in 1..Clients |-> <<"a", "">>] /\ left = [c \in 1..Clients |-> Rounds]
        /\ has = [c \in 1..Clients |-> ""] /\ store = {} /\ pending = {} /\ answer = [c \in 1..Clients |-> ""]

Ask(c) == /\ pc[c] = "idle" /\ left[c] > 0
          /\ \E r \in Requests : req' = [req EXCEPT ![c] = r]
          /\ left' = [left EXCEPT ![c] = @ - 1] /\ pc' = [pc EXCEPT ![c] = "look"] /\ answer' = [answer EXCEPT ![c] = ""]
          /\ UNCHANGED <<has, store, pending>>
Reply(c, v) == answer' = [answer EXCEPT ![c] = v] /\ pc' = [pc EXCEPT ![c] = "idle"]
Look(c) == /\ pc[c] = "look"
           /\ IF Get(AnswerKey(req[c])) # {} THEN (\E v \in Get(AnswerKey(req[c])) : Reply(c, v))
              ELSE pc' = [pc EXCEPT ![c] = "folder"] /\ UNCHANGED answer
           /\ UNCHANGED <<req, left, has, store, pending>>
Folder(c) == /\ pc[c] = "folder"
             /\ IF Get(FolderKey(req[c])) # {} THEN /\ (\E v \in Get(FolderKey(req[c])) : has' = [has EXCEPT ![c] = v])
                                                    /\ pc' = [pc EXCEPT ![c] = "work"] /\ UNCHANGED <<pending, answer>>
                ELSE IF req[c][1] = "b" THEN Reply(c, "error") /\ UNCHANGED <<has, pending>>
                ELSE /\ has' = [has EXCEPT ![c] = req[c][1]] /\ pending' = pending \cup {[k |-> FolderKey(req[c]), v |-> req[c][1]]}
                     /\ pc' = [pc EXCEPT ![c] = "work"] /\ UNCHANGED answer
             /\ UNCHANGED <<req, left, store>>
Work(c) == /\ pc[c] = "work"
           /\ LET v == Right(<<has[c], req[c][2]>>)
              IN  /\ Reply(c, v)
                  /\ pending' = IF v = "error" /\ ~StoreFailures THEN pending
                                ELSE pending \cup {[k |-> AnswerKey(req[c]), v |-> IF v = "error" THEN "nothing" ELSE v]}
           /\ UNCHANGED <<req, left, has, store>>
Write == \E e \in pending : store' = Put(e.k, e.v) /\ pending' = pending \ {e} /\ UNCHANGED <<pc, req, left, has, answer>>

Next == Write \/ \E c \in 1..Clients : Ask(c) \/ Look(c) \/ Folder(c) \/ Work(c)
Spec == Init /\ [][Next]_vars

AsFresh == \A c \in 1..Clients : answer[c] # "" => answer[c] = Right(req[c])
=============================================================================
