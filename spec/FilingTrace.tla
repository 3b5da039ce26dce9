---------------------------- MODULE FilingTrace ----------------------------
(***************************************************************************)
(* Judges recorded events: what the real system showed of real files (out)  *)
(* against what the specification says about the abstract filing (in).      *)
(*                                                                         *)
(* The recorded events are split into chains that TLC's workers follow in   *)
(* parallel.  Every state is one judged event; a verdict other than "ok" is *)
(* printed with the number of the event, and NothingBad fails.              *)
(***************************************************************************)
EXTENDS Filing, Json, IOUtils

CONSTANT Chains

Events == ndJsonDeserialize(IOEnv.EVENTS)
Prop == IOEnv.PROP

VARIABLES at, verdict

--------------------------------------------------------------------------
Grids(v) ==
  <<[ks |-> Map(v.rows, LAMBDA x : x.k), g |-> v.g]>>
    \o Map(v.sums, LAMBDA s : [ks |-> CalRows(s), g |-> s.g])
    \o Map(v.tabs, LAMBDA t : [ks |-> TabRows(t), g |-> t.g])

YesNo(b) == IF b THEN "ok" ELSE "bad"

CalVerdict(F, r, items) ==
  LET all == CalArcs(F, r) one == CalArcsFirst(F, r)
  IN  CASE CalMatch(F, all, items) -> "ok"
        [] all # one /\ CalMatch(F, one, items) -> "split"
        [] OTHER -> "bad"

AllGrids(F, v, ok(_, _, _, _)) == YesNo(\A x \in Range(Grids(v)) : ok(F, v.e, x.ks, x.g))

\* the verdict on one view
View(p, F, v) ==
  CASE v.err -> "bad"
    [] p = "C04" -> YesNo(ViewTitlesOK(F, v))
    [] p = "C07" -> RowsVerdict(F, v.r, v.rows)
    [] p = "C08" -> AllGrids(F, v, ColumnsOK)
    [] p = "C09" -> AllGrids(F, v, CellsOK)
    [] p = "C10" -> AllGrids(F, v, HeadersOK)
    [] p = "C11" -> AllGrids(F, v, FootnotesOK)
    [] p = "C12" -> CalVerdict(F, v.r, v.sums)
    [] p = "C13" -> YesNo(RelationsOK(F, v.r, v.nodes, v.links))
    [] p = "C14" -> DomainsVerdict(F, v.r, v.tabs)
    [] p = "C15" -> YesNo(LabelsOK(F, v))

ViewProps == {"C04", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"}

Worst(S) == IF "bad" \in S THEN "bad"
            ELSE IF S \ {"ok"} = {} THEN "ok" ELSE CHOOSE x \in S \ {"ok"} : TRUE

Views(p, F, out) == Worst({View(p, F, out.views[i]) : i \in 1..Len(out.views)})

\* every question has an answer, or the driver is wrong
Singles(F, out) == Assert(Len(out.singles) = Len(F.queries), "unanswered")
                   /\ \A s \in Range(out.singles) : SingleOK(F, s)
                   /\ ~out.stray

Verdict(p, e) ==
  IF e.crash \/ e.hang THEN "crash"
  ELSE LET F == e.in out == e.out
       IN CASE out.crash -> "crash"
            [] out.err -> "bad"
            [] p = "C05" -> YesNo(out.same)
            [] p = "C04" -> CASE out.cat.err \/ ~CatalogOK(F, out.cat) \/ ~out.unlisted -> "bad"
                               [] SlugsOK(out.cat) -> Views(p, F, out)
                               \* the two that share an address show one of them
                               [] SlugsDeviant(out.cat) ->
                                    (IF Worst({View(p, F, v) : v \in {w \in Range(out.views) : w.r \notin Alike}}) = "ok"
                                     THEN "slug" ELSE "bad")
                               [] OTHER -> "bad"
            [] p = "C18" -> YesNo(Singles(F, out))
            \* unusable parts: the views are those of the filing without them
            [] p = "C24" -> YesNo("bad" \notin {YesNo(out.same), YesNo(CatalogOK(F, out.cat)),
                                   YesNo(Singles(F, out))}
                                   \cup {Views(q, F, out) : q \in ViewProps})
            [] OTHER -> Views(p, F, out)

--------------------------------------------------------------------------
Init == /\ at \in {[chain |-> c, i |-> c] : c \in 1..Min2(Chains, Len(Events))}
        /\ verdict = "unread"

Judge(i) == LET v == Verdict(Prop, Events[i])
            IN  IF v = "ok" THEN v ELSE IF PrintT(<<"VERDICT", i, v>>) THEN v ELSE v

Next == /\ at.i <= Len(Events)
        /\ verdict' = Judge(at.i)
        /\ at' = [at EXCEPT !.i = @ + Chains]

Spec == Init /\ [][Next]_<<at, verdict>>

NothingBad == verdict \notin {"bad", "crash"}
=============================================================================
