---------------------------- MODULE DiscoveryGen ----------------------------
(***************************************************************************)
(* All folders of three schemas (two of them sharing a namespace) and a     *)
(* linkbase with up to Depth references among them, to a missing file, an   *)
(* unreadable one and a URL.                                                *)
(***************************************************************************)
EXTENDS Discovery, Json

CONSTANT Depth

VARIABLE placed  \* pairs <<source, reference>> in the order of All

Schemas == <<"a.xsd", "b.xsd", "c.xsd">>
NsOf(n) == IF n = "a.xsd" THEN 1 ELSE 2

Ref(k, to, ns, b) == [k |-> k, h |-> to, to |-> to, far |-> FALSE, ns |-> ns, b |-> b]
Far(k, ns) == [k |-> k, h |-> "http://far.example.com/x.xsd", to |-> "", far |-> TRUE, ns |-> ns, b |-> ""]

OfInstance == [i \in 1..3 |-> Ref("schema", Schemas[i], 0, "")]
              \o <<Ref("schema", "none.xsd", 0, ""), Ref("schema", "bad.xsd", 0, ""), Far("schema", 0)>>
OfSchema == [i \in 1..3 |-> Ref("include", Schemas[i], 0, "")]
            \o [i \in 1..3 |-> Ref("import", Schemas[i], NsOf(Schemas[i]), "")]
            \o <<Ref("include", "bad.xsd", 0, ""), Ref("import", "none.xsd", 3, ""), Far("import", 3), Far("include", 0),
                 Ref("import", "a.xsd", 4, ""), Ref("import", "l.xml", 5, ""),
                 Ref("base", "l.xml", 0, "pre"), Ref("base", "l.xml", 0, "lab"), Ref("base", "none.xml", 0, "def"), Ref("base", "a.xsd", 0, "cal")>>

All == [i \in 1..Len(OfInstance) |-> <<0, OfInstance[i]>>]
       \o Flat([s \in 1..3 |-> [i \in 1..Len(OfSchema) |-> <<s, OfSchema[i]>>]])

Refs(s) == LET mine == Filter(placed, LAMBDA i : All[i][1] = s) IN [i \in 1..Len(mine) |-> All[mine[i]][2]]

Folder == [refs |-> Refs(0),
           files |-> [s \in 1..3 |-> [n |-> Schemas[s], kind |-> "schema", ns |-> NsOf(Schemas[s]), refs |-> Refs(s)]]
                     \o <<[n |-> "l.xml", kind |-> "base", ns |-> 0, refs |-> <<>>],
                          [n |-> "bad.xsd", kind |-> "broken", ns |-> 0, refs |-> <<>>]>>,
           style |-> 0]

Last == IF placed = <<>> THEN 0 ELSE placed[Len(placed)]

Init == placed = <<>>
Next == /\ Len(placed) < Depth
        /\ \E i \in (Last + 1)..Len(All) : placed' = Append(placed, i)
Spec == Init /\ [][Next]_placed
Emit == PrintT("JSON " \o ToJson(Folder))
=============================================================================
