---------------------------- MODULE MarkupTrace -----------------------------
(* Judges shown text blocks and served documents. *)
EXTENDS Markup, Json, IOUtils

CONSTANT Chains

Events == ndJsonDeserialize(IOEnv.EVENTS)
Prop == IOEnv.PROP

VARIABLES at, verdict

Told(ok, what) == ok \/ ~PrintT(what)

Blocks(e) ==
  /\ Len(e.out.blocks) = Len(e.in.blocks)
  /\ \A i \in 1..Len(e.in.blocks) : \A s \in Range(e.out.blocks[i]) :
       Told(BlockOK(e.in.blocks[i], s), <<"BLOCK", e.in.blocks[i], s>>)
Documents(e) ==
  /\ Len(e.out.docs) = Len(e.in.docs)
  /\ \A i \in 1..Len(e.in.docs) :
       Told(DocumentOK(e.in.docs[i].files, e.in.docs[i].doc, e.out.docs[i]), <<"DOCUMENT", e.in.docs[i], e.out.docs[i]>>)

Verdict(e) ==
  IF e.crash \/ e.hang \/ e.out.crash THEN "crash"
  ELSE IF ~e.out.err /\ (IF Prop = "C23" THEN Blocks(e) ELSE Documents(e)) THEN "ok" ELSE "bad"

Init == /\ at \in {[chain |-> c, i |-> c] : c \in 1..Min2(Chains, Len(Events))}
        /\ verdict = "unread"
Judge(i) == LET v == Verdict(Events[i])
            IN  IF v = "ok" THEN v ELSE IF PrintT(<<"VERDICT", i, v>>) THEN v ELSE v
Next == /\ at.i <= Len(Events)
        /\ verdict' = Judge(at.i)
        /\ at' = [at EXCEPT !.i = @ + Chains]
Spec == Init /\ [][Next]_<<at, verdict>>
NothingBad == verdict \notin {"bad", "crash"}
=============================================================================
