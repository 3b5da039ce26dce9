------------------------------ MODULE NamesGen ------------------------------
(***************************************************************************)
(* "lookup": all ways of putting up to Depth concepts with clashing names   *)
(* and identifiers into four schemas; "mistaken": the same with imports for *)
(* the wrong namespace.  "prefix": all sequences of up to     *)
(* Depth bindings of clashing prefixes to reserved and other namespaces.    *)
(***************************************************************************)
EXTENDS Names, Json, SequencesExt

CONSTANTS Family, Depth

VARIABLE placed

Files == <<[n |-> "a.xsd", far |-> FALSE, ns |-> 1, as |-> 0], [n |-> "dir/a.xsd", far |-> FALSE, ns |-> 1, as |-> 0],
           [n |-> "b.xsd", far |-> FALSE, ns |-> 2, as |-> IF Family = "mistaken" THEN 1 ELSE 0], [n |-> "http://far/a.xsd", far |-> TRUE, ns |-> 3, as |-> IF Family = "mistaken" THEN 4 ELSE 0]>>
Locals == <<"A", "a", "AB">>
Ids == <<"A", "x_A">>
Elements == {[f |-> f, name |-> Locals[i], id |-> Ids[j], d |-> d] : f \in 1..4, i \in 1..3, j \in 1..2, d \in 0..2}

InFile(f) == LET mine == Filter(placed, LAMBDA e : e.f = f) IN [i \in 1..Len(mine) |-> [name |-> mine[i].name, id |-> mine[i].id, d |-> mine[i].d]]

Lookup == [files |-> [f \in 1..4 |-> [n |-> Files[f].n, far |-> Files[f].far, state |-> "ok", ns |-> Files[f].ns, as |-> Files[f].as, els |-> InFile(f)]],
           names |-> SetToSeq({[ns |-> n, name |-> Locals[i]] : n \in 1..4, i \in 1..3}),
           hrefs |-> SetToSeq({[n |-> Files[f].n, id |-> Ids[j]] : f \in 1..4, j \in 1..2}),
           binds |-> <<>>, style |-> 0]

Bindings == {[p |-> p, ns |-> n] : p \in {"link", "link-a", "link-a-a", "x", "xbrldi"}, n \in {1, 6, 7, 8}}
PrefixLists == [files |-> <<>>, names |-> <<>>, hrefs |-> <<>>, binds |-> placed, style |-> 0]

Init == placed = <<>>
Next == /\ Len(placed) < Depth
        /\ \E x \in (IF Family # "prefix" THEN Elements ELSE Bindings) :
             /\ IF Family # "prefix"
                THEN \A i \in 1..Len(placed) : x.f >= placed[i].f /\ ~(placed[i].f = x.f /\ placed[i].id = x.id)
                ELSE \A i \in 1..Len(placed) : placed[i].p # x.p
             /\ placed' = Append(placed, x)
Spec == Init /\ [][Next]_placed
Emit == PrintT("JSON " \o ToJson(IF Family # "prefix" THEN Lookup ELSE PrefixLists))
=============================================================================
