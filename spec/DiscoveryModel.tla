--------------------------- MODULE DiscoveryModel ---------------------------
(***************************************************************************)
(* The concurrent exploration of a folder: every reference of the instance  *)
(* and of a schema that is visited for the first time is followed by a task *)
(* of its own; a task records the namespace, asks whether it is the first   *)
(* visitor, spawns the tasks of the schema's references, waits for them and *)
(* records the schema.  For every small folder and every interleaving the   *)
(* exploration ends, and what it leaves is what Discovery asks for.         *)
(***************************************************************************)
EXTENDS Discovery

CONSTANT Depth

VARIABLES fd,       \* the folder
          pc,       \* task -> where it is
          by,       \* task -> the task that spawned it
          visited, schemas, bases, ns

vars == <<fd, pc, by, visited, schemas, bases, ns>>

Schemas == <<"a.xsd", "b.xsd", "c.xsd">>
Ref(k, to, nsp, b) == [k |-> k, h |-> to, to |-> to, far |-> FALSE, ns |-> nsp, b |-> b]
Slots == [i \in 1..3 |-> Ref("include", Schemas[i], 0, "")]
         \o [i \in 1..3 |-> Ref("import", Schemas[i], i, "")]
         \o <<Ref("base", "l.xml", 0, "pre"), Ref("import", "none.xsd", 3, "")>>
Folders ==
  {[refs |-> [i \in 1..Len(Filter(<<1, 2, 3>>, LAMBDA j : j \in roots)) |->
                 Ref("schema", Schemas[Filter(<<1, 2, 3>>, LAMBDA j : j \in roots)[i]], 0, "")],
    files |-> [s \in 1..3 |-> [n |-> Schemas[s], kind |-> "schema", ns |-> IF s = 1 THEN 1 ELSE 2,
                               refs |-> LET mine == Filter([i \in 1..Len(Slots) |-> i], LAMBDA i : <<s, i>> \in edges)
                                        IN  [i \in 1..Len(mine) |-> Slots[mine[i]]]]]
              \o <<[n |-> "l.xml", kind |-> "base", ns |-> 0, refs |-> <<>>]>>]
   : roots \in {{1}, {1, 2}}, edges \in {{f[i] : i \in 1..Depth} : f \in [1..Depth -> (1..3) \X (1..Len(Slots))]}}

\* tasks are <<source, position>> with source 0 the instance
Source(s) == IF s = 0 THEN fd.refs ELSE fd.files[s].refs
Tasks == {<<s, i>> : s \in 0..3, i \in 1..20}
RefOf(t) == Source(t[1])[t[2]]
Exists(t) == t[2] <= Len(Source(t[1]))
Index(n) == CHOOSE s \in 1..3 : Schemas[s] = n

Init == /\ fd \in Folders
        /\ pc = [t \in {u \in Tasks : Exists(u) /\ u[1] = 0} |-> "follow"]
        /\ by = [t \in DOMAIN pc |-> <<>>]
        /\ visited = {} /\ schemas = <<>> /\ bases = <<>> /\ ns = {}

Go(t, where) == pc' = [pc EXCEPT ![t] = where]

\* the file is read, the namespace recorded
Follow(t) ==
  /\ pc[t] = "follow"
  /\ LET r == RefOf(t) IN
     IF LoadsSchema(fd, r)
     THEN LET n == IF r.k = "import" THEN r.ns ELSE (CHOOSE x \in Named(fd, r, "schema") : TRUE).ns
              known == {s \in ns : s.ns = n}
          IN  /\ ns' = IF known = {} THEN ns \cup {[ns |-> n, h |-> r.h]} ELSE ns
              /\ Go(t, "visit") /\ UNCHANGED bases
     ELSE IF LoadsBase(fd, r)
     THEN bases' = Append(bases, [h |-> r.h, c |-> r.to]) /\ Go(t, "done") /\ UNCHANGED ns
     ELSE Go(t, "done") /\ UNCHANGED <<ns, bases>>
  /\ UNCHANGED <<fd, by, visited, schemas>>

\* only the first visitor goes on
Visit(t) ==
  /\ pc[t] = "visit"
  /\ LET n == RefOf(t).to
         children == {u \in Tasks : u[1] = Index(n) /\ Exists(u)}
     IN  IF n \in visited
         THEN Go(t, "done") /\ UNCHANGED <<by, visited>>
         ELSE /\ visited' = visited \cup {n}
              /\ pc' = [u \in DOMAIN pc \cup children |-> IF u = t THEN "wait" ELSE IF u \in children THEN "follow" ELSE pc[u]]
              /\ by' = [u \in DOMAIN by \cup children |-> IF u \in children THEN t ELSE by[u]]
  /\ UNCHANGED <<fd, schemas, bases, ns>>

\* its own tasks are done
Store(t) ==
  /\ pc[t] = "wait"
  /\ \A u \in DOMAIN by : by[u] = t => pc[u] = "done"
  /\ schemas' = Append(schemas, [h |-> RefOf(t).h, c |-> RefOf(t).to])
  /\ Go(t, "done")
  /\ UNCHANGED <<fd, by, visited, bases, ns>>

Finished == \A t \in DOMAIN pc : pc[t] = "done"
Rest == Finished /\ UNCHANGED vars

Next == (\E t \in DOMAIN pc : Follow(t) \/ Visit(t) \/ Store(t)) \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})

Exact == Finished => FolderOK(fd, [schemas |-> schemas, pre |-> bases, def |-> <<>>, cal |-> <<>>, lab |-> <<>>, ns |-> Listed(ns)])
Once == NoDup([i \in 1..Len(schemas) |-> schemas[i].c])
Ends == <>Finished
=============================================================================
