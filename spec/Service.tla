------------------------------ MODULE Service -------------------------------
(***************************************************************************)
(* Answers of the service (C01, C02, C06, C25).                             *)
(*                                                                         *)
(* An answer is [status, body, len].  Of every answered request is known    *)
(* what it got, what an instance without cache gives to the same request    *)
(* (fresh), and what the packages produce for it without HTTP (produced;    *)
(* status 200 or 500).  A request is odd if its text cannot be understood   *)
(* in one way only (slashes in identifiers and the like).                   *)
(***************************************************************************)
EXTENDS Util

Good(a) == a.status = 200
Refused(a) == a.status >= 400
SameAnswer(a, b) == a.status = b.status /\ (Good(a) => a.body = b.body /\ a.len = b.len)

\* C01
CachedOK(answers) == \A i \in 1..Len(answers) : SameAnswer(answers[i].got, answers[i].fresh)

\* C25
CarriesOK(answers) ==
  \A i \in 1..Len(answers) :
     LET x == answers[i] IN
     x.via = "http" =>
       IF x.method # "GET" THEN Refused(x.got) \/ x.got.len = 0
       ELSE IF x.odd THEN Good(x.got) /\ x.got.len > 0 => SameAnswer(x.got, x.fresh)
       ELSE IF Good(x.produced) THEN SameAnswer(x.got, x.produced)
       ELSE Refused(x.got) /\ x.got.body # x.produced.body

\* the same requests to a healthy folder before and after others were served
AsBefore(before, after) ==
  /\ Len(before) = Len(after)
  /\ \A i \in 1..Len(before) : SameAnswer(before[i], after[i])
=============================================================================
