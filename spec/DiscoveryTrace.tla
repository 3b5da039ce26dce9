--------------------------- MODULE DiscoveryTrace ---------------------------
(* Judges what the real system loaded from folders. *)
EXTENDS Discovery, Json, IOUtils

CONSTANT Chains

Events == ndJsonDeserialize(IOEnv.EVENTS)

VARIABLES at, verdict

\* every scenario is loaded several times
Verdict(e) ==
  IF e.crash \/ e.hang \/ e.out.crash THEN "crash"
  ELSE IF e.out.err THEN "bad"
  ELSE IF e.out.loads = <<>> THEN "bad"
  ELSE IF \A i \in 1..Len(e.out.loads) : FolderOK(e.in, e.out.loads[i]) THEN "ok"
  ELSE "bad"

Init == /\ at \in {[chain |-> c, i |-> c] : c \in 1..Min2(Chains, Len(Events))}
        /\ verdict = "unread"
Judge(i) == LET v == Verdict(Events[i])
            IN  IF v = "ok" THEN v ELSE IF PrintT(<<"VERDICT", i, v>>) THEN v ELSE v
Next == /\ at.i <= Len(Events)
        /\ verdict' = Judge(at.i)
        /\ at' = [at EXCEPT !.i = @ + Chains]
Spec == Init /\ [][Next]_<<at, verdict>>
NothingBad == verdict \notin {"bad", "crash"}
=============================================================================
