------------------------------ MODULE PathsGen ------------------------------
(***************************************************************************)
(* "url": all URLs over a few schemes, hosts and paths of up to Depth       *)
(* steps, compared with each other.  "ref": all references of up to Depth   *)
(* steps in every place of a folder that can hold one.                      *)
(***************************************************************************)
EXTENDS Paths, Json, SequencesExt

CONSTANTS Family, Depth

VARIABLE start

Words(S, k) == UNION {[1..j -> S] : j \in 0..k}

Urls == SetToSeq({[scheme |-> s, host |-> h, steps |-> p] : s \in {"http", "https", "ftp"}, h \in {"h", "a", "..", ".", "http", "a.h", "h.h", "[::1]", "[::2]", "[1::1]"},
                  p \in Words({"a", "..", ".", "", "h", "b c"}, Depth)})

Steps == {"s.xsd", "dir", "..", ".", "", "folder", "outside", "other"}
Kinds == {"schema", "include", "import", "base", "entry", "id", "image"}
Files == <<<<"s.xsd">>, <<"dir", "s.xsd">>, <<"l.xml">>, <<"outside", "s.xsd">>>>

Refs == LET tails == SetToSeq(Words(Steps, 1))
        IN  [i \in 1..Len(tails) |-> [k |-> start.k, steps |-> start.p \o tails[i]]]

Init == start \in (IF Family = "url" THEN {[k |-> "url", p |-> <<>>]} ELSE {[k |-> k, p |-> p] : k \in Kinds, p \in Words(Steps, Depth - 1)})
Next == FALSE /\ UNCHANGED start
Spec == Init /\ [][Next]_start
Emit == PrintT("JSON " \o ToJson(IF Family = "url" THEN [urls |-> Urls, files |-> <<>>, refs |-> <<>>, style |-> 0]
                                 ELSE [urls |-> <<>>, files |-> Files, refs |-> Refs, style |-> 0]))
=============================================================================
