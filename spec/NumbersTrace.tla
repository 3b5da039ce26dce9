---------------------------- MODULE NumbersTrace ----------------------------
(* Judges the expressions the real system gave to filed numbers. *)
EXTENDS Numbers, Json, IOUtils

CONSTANT Chains

Events == ndJsonDeserialize(IOEnv.EVENTS)

VARIABLES at, verdict

Verdict(e) ==
  IF e.crash \/ e.hang \/ e.out.crash THEN "crash"
  ELSE IF /\ ~e.out.err
          /\ Len(e.out.shown) = Len(e.in.facts)
          /\ \A i \in 1..Len(e.in.facts) : \/ FactOK(e.in.registry, e.in.units, e.in.facts[i], e.out.shown[i])
                                           \/ ~PrintT(<<"FACT", e.in.facts[i], e.out.shown[i]>>)
       THEN "ok" ELSE "bad"

Init == /\ at \in {[chain |-> c, i |-> c] : c \in 1..Min2(Chains, Len(Events))}
        /\ verdict = "unread"
Judge(i) == LET v == Verdict(Events[i])
            IN  IF v = "ok" THEN v ELSE IF PrintT(<<"VERDICT", i, v>>) THEN v ELSE v
Next == /\ at.i <= Len(Events)
        /\ verdict' = Judge(at.i)
        /\ at' = [at EXCEPT !.i = @ + Chains]
Spec == Init /\ [][Next]_<<at, verdict>>
NothingBad == verdict \notin {"bad", "crash"}
=============================================================================
