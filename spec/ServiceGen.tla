----------------------------- MODULE ServiceGen -----------------------------
(***************************************************************************)
(* "hist": all sequences of Depth requests from a small alphabet, with and  *)
(* without waiting for the delayed writes of the cache.  "pair": all sets   *)
(* of up to Depth requests at the same time, asked twice.  "bend": every    *)
(* way to bend every request, after and before the request as it is, and    *)
(* with every method.  "spelt": one part of a request respelt, likewise.    *)
(* "editions": sequences of requests to two folders whose global schemas     *)
(* differ by a step of their URLs only.                                     *)
(***************************************************************************)
EXTENDS Service, Json

CONSTANTS Family, Depth, Via

VARIABLE start

Q(k, f, n, bent, method) == [k |-> k, f |-> f, n |-> n, bent |-> bent, via |-> Via, method |-> method]
Folder(id, seed, kind) == [id |-> id, seed |-> seed, kind |-> kind]
World == <<Folder("a", 1, "good"), Folder("ab", 2, "good"), Folder("b", 3, "noentry")>>
Separated == <<Folder("a:b", 1, "good"), Folder("a|b", 2, "good"), Folder("a-b", 3, "plain"), Folder("a", 4, "good")>>

Editions == <<Folder("a", 1, "rich"), Folder("b", 2, "rich"), Folder("c", 1, "good")>>

Alphabet == {Q("cat", 0, 0, "", "GET"), Q("cat", 2, 0, "", "GET"), Q("ren", 0, 0, "", "GET"), Q("ren", 0, 1, "", "GET"),
             Q("ren", 0, 0, "unknown", "GET"), Q("ren", 0, 0, "crossid", "GET"), Q("ren", 1, 0, "unshift", "GET"), Q("doc", 0, 0, "", "GET"),
             Q("doc", 1, 0, "", "GET"), Q("fact", 0, 0, "", "GET"), Q("fact", 0, 1, "", "GET"), Q("fact", 0, 0, "shift", "GET"),
             Q("fact", 0, 0, "unknown", "GET")}
Step(reqs, settle) == [reqs |-> reqs, settle |-> settle]
Bends == {"unknown", "upper", "shift", "unshift", "resplit", "crossid", "asaddress", "joined", "faced", "meta", "long", "nul", "colons", "entry", "empty", "up"}
Parts(k) == CASE k = "cat" -> {"id:"} [] k \in {"ren", "doc"} -> {"id:", "a:"} [] k = "fact" -> {"id:", "a:", "b:"}
Spellings == {"padl", "padr", "tab", "upper", "lower", "cut", "chop", "more", "twice", "local", "nul", "hash", "slash", "plus", "quote", "json", "none"}
HttpBends == {"slash", "double", "dots", "encoded", "extra", "noargs", "badquery", "percent", "root"}
Methods == {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"}

Hist == \E w \in [1..Depth -> Alphabet], s \in BOOLEAN : start = [i \in 1..Depth |-> Step(<<w[i]>>, s)]
Pair == \E d \in 2..Depth : \E w \in [1..d -> Alphabet] :
          /\ \A i \in 1..(d - 1) : w[i] # w[i + 1] \/ i = 1
          /\ start = <<Step([i \in 1..d |-> w[i]], FALSE), Step([i \in 1..d |-> w[i]], TRUE), Step([i \in 1..d |-> w[i]], FALSE)>>
Bend == \E k \in {"cat", "ren", "doc", "fact"}, f \in 0..1, n \in 0..Depth, b \in Bends \cup (IF Via = "http" THEN HttpBends ELSE {}), m \in Methods :
          /\ m # "GET" => Via = "http"
          /\ LET p == Q(k, f, n, "", "GET")
                 q == Q(k, f, n, b, m)
             IN  \/ start = <<Step(<<p>>, TRUE), Step(<<q>>, TRUE), Step(<<p>>, TRUE), Step(<<[p EXCEPT !.method = m]>>, TRUE)>>
                 \/ start = <<Step(<<q>>, TRUE), Step(<<p>>, TRUE), Step(<<q>>, TRUE)>>

(* one part of a request written a little differently *)
Spelt == \E k \in {"cat", "ren", "doc", "fact"}, f \in 0..2, n \in 0..Depth : \E b \in {part \o how : part \in Parts(k), how \in Spellings} \cup {"resplit"} :
          LET p == Q(k, f, n, "", "GET")
              q == Q(k, f, n, b, "GET")
          IN  \/ start = <<Step(<<p>>, TRUE), Step(<<q>>, TRUE), Step(<<p>>, TRUE)>>
              \/ start = <<Step(<<q>>, TRUE), Step(<<p>>, TRUE), Step(<<q>>, TRUE)>>

EditionAlphabet == {Q("cat", f, 0, "", "GET") : f \in 0..1} \cup {Q("ren", f, n, "", "GET") : f \in 0..2, n \in 0..1}
                   \cup {Q("fact", f, n, "", "GET") : f \in 0..1, n \in {0, 2, 3, 4}} \cup {Q("doc", f, 0, "", "GET") : f \in 0..1}
AllEditions == \E w \in [1..Depth -> EditionAlphabet] : start = [i \in 1..Depth |-> Step(<<w[i]>>, TRUE)]

Init == CASE Family = "hist" -> Hist [] Family = "pair" -> Pair [] Family = "bend" -> Bend [] Family = "spelt" -> Spelt [] Family = "editions" -> AllEditions
Next == FALSE /\ UNCHANGED start
Spec == Init /\ [][Next]_start
Emit == PrintT("JSON " \o ToJson([folders |-> CASE Family = "spelt" -> Separated [] Family = "editions" -> Editions [] OTHER -> World, steps |-> start]))
=============================================================================
