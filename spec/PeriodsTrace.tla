---------------------------- MODULE PeriodsTrace ----------------------------
(* Judges the period wording the real system gave to contexts. *)
EXTENDS Periods, Json, IOUtils

CONSTANT Chains

Events == ndJsonDeserialize(IOEnv.EVENTS)

VARIABLES at, verdict

One(p, hs) ==
  IF hs.grids = <<>> THEN "bad"
  ELSE IF ~HeaderOK(p, hs.one) THEN "bad"
  ELSE IF \A h \in Range(hs.grids) : HeaderOK(p, h) THEN "ok"
  ELSE IF \A h \in Range(hs.grids) : HeaderDeviant(p, h) THEN "slash"
  ELSE "bad"
\* shown[i] holds all headers seen for period i: grids, then the single fact
Of(p, hs) ==
  LET v == One(p, hs) IN IF v = "bad" /\ PrintT(<<"PERIOD", p, hs>>) THEN v ELSE v

Verdict(e) ==
  IF e.crash \/ e.hang \/ e.out.crash THEN "crash"
  ELSE IF e.out.err \/ Len(e.out.shown) # Len(e.in.periods) THEN "bad"
  ELSE LET vs == {Of(e.in.periods[i], e.out.shown[i]) : i \in 1..Len(e.in.periods)}
       IN  IF "bad" \in vs THEN "bad" ELSE IF "slash" \in vs THEN "slash" ELSE "ok"

Init == /\ at \in {[chain |-> c, i |-> c] : c \in 1..Min2(Chains, Len(Events))}
        /\ verdict = "unread"
Judge(i) == LET v == Verdict(Events[i])
            IN  IF v = "ok" THEN v ELSE IF PrintT(<<"VERDICT", i, v>>) THEN v ELSE v
Next == /\ at.i <= Len(Events)
        /\ verdict' = Judge(at.i)
        /\ at' = [at EXCEPT !.i = @ + Chains]
Spec == Init /\ [][Next]_<<at, verdict>>
NothingBad == verdict \notin {"bad", "crash"}
=============================================================================
