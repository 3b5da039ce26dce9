---------------------------- MODULE ServiceTrace ----------------------------
(* Judges what the real service answered; PROP is the property in question. *)
EXTENDS Service, Json, IOUtils

CONSTANT Chains

Events == ndJsonDeserialize(IOEnv.EVENTS)
Prop == IOEnv.PROP

VARIABLES at, verdict

Verdict(e) ==
  IF e.crash \/ e.hang \/ e.out.crash THEN "crash"
  ELSE IF CASE Prop = "C01" -> CachedOK(e.out.answers)
            [] Prop = "C25" -> CarriesOK(e.out.answers)
            [] Prop = "C06" -> e.out.races = 0
            [] Prop = "C02" -> AsBefore(e.out.before, e.out.after)
       THEN "ok" ELSE "bad"

Init == /\ at \in {[chain |-> c, i |-> c] : c \in 1..Min2(Chains, Len(Events))}
        /\ verdict = "unread"
Judge(i) == LET v == Verdict(Events[i])
            IN  IF v = "ok" THEN v ELSE IF PrintT(<<"VERDICT", i, v>>) THEN v ELSE v
Next == /\ at.i <= Len(Events)
        /\ verdict' = Judge(at.i)
        /\ at' = [at EXCEPT !.i = @ + Chains]
Spec == Init /\ [][Next]_<<at, verdict>>
NothingBad == verdict \notin {"bad", "crash"}
=============================================================================
