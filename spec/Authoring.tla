------------------------------ MODULE Authoring ------------------------------
(***************************************************************************)
(* Every small filing of a family.  An author starts with a bare filing and *)
(* adds one part at a time; every state is a filing, is printed as JSON and  *)
(* is later written to disk and rendered by the real system.                 *)
(*                                                                          *)
(* Families look at one aspect each: pre, grid, foot, cal, def, lab, cat,    *)
(* single.  Depth bounds the number of parts added.                          *)
(***************************************************************************)
EXTENDS Filing, Json

CONSTANTS Family, Depth

VARIABLES f, n

vars == <<f, n>>

--------------------------------------------------------------------------
(* Concepts: 1001..1009 items (even ones monetary), 1011.. dimensions,       *)
(* 1021.. members, 1031 typed dimension of domain 1041, 1051.. hypercubes.   *)

Item(k) == [k |-> k, abs |-> FALSE, bal |-> k % 3, typ |-> IF k % 2 = 0 THEN "mon" ELSE "str", td |-> 0]
Abstract(k) == [k |-> k, abs |-> TRUE, bal |-> 0, typ |-> "str", td |-> 0]
TypedDim(k, d) == [k |-> k, abs |-> TRUE, bal |-> 0, typ |-> "str", td |-> d]
Domain(k) == [k |-> k, abs |-> FALSE, bal |-> 0, typ |-> "td", td |-> 0]

Ctx(i, e, p, o) == [id |-> i, e |-> e, p |-> p, seg |-> o.seg, scen |-> o.scen, tseg |-> o.tseg, tscen |-> o.tscen]
NoDims == [seg |-> <<>>, scen |-> <<>>, tseg |-> <<>>, tscen |-> <<>>]
Mem(d, m) == [d |-> d, m |-> m]
TMem(v) == [d |-> 1031, els |-> <<[k |-> 1041, up |-> 0, v |-> v]>>]

Bare ==
  [id |-> "folder", tag |-> Family,
   concepts |-> <<Item(1001), Item(1002), Item(1003), Item(1004), Abstract(1005)>>,
   roles |-> <<[r |-> 1, t |-> 1, f |-> 1]>>,
   ctx |-> <<Ctx(1, 11, 1, NoDims)>>,
   facts |-> <<>>, pre |-> <<>>, cal |-> <<>>, def |-> <<>>, lab |-> <<>>, fn |-> <<>>,
   names |-> <<>>, tags |-> <<>>, queries |-> <<>>, inline |-> FALSE,
   periods |-> <<"2019-12-31", "2020-01-01/2020-12-31", "2020-12-31">>, style |-> 0, noise |-> <<>>]

Fact(i, c, x, nil, v) == [id |-> i, c |-> c, x |-> x, n |-> nil, v |-> v]
Locs(ks) == [i \in 1..Len(ks) |-> [l |-> i, k |-> ks[i]]]
Link(r, file, ks) == [r |-> r, f |-> file, locs |-> Locs(ks), arcs |-> <<>>]

AddArc(kind, arc) == [f EXCEPT ![kind] = [@ EXCEPT ![Len(@)].arcs = Append(@, arc)]]
LastLink(kind) == f[kind][Len(f[kind])]
HasArc(link, a, b) == \E i \in 1..Len(link.arcs) : link.arcs[i].a = a /\ link.arcs[i].b = b

--------------------------------------------------------------------------
(* Trees the display is defined for: no cycles, a concept with children is   *)
(* one node with at most one parent.                                         *)

RECURSIVE Reach(_, _, _)
Reach(arcs, S, k) ==
  IF k = 0 THEN S ELSE Reach(arcs, S \cup {arcs[i].b : i \in {j \in 1..Len(arcs) : arcs[j].a \in S}}, k - 1)

Tree(arcs) ==
  LET nodes == Froms(arcs) \cup Tos(arcs)
  IN  /\ \A i, j \in 1..Len(arcs) : (arcs[i].a = arcs[j].a /\ arcs[i].b = arcs[j].b) => i = j
      /\ \A m \in nodes : m \notin Reach(arcs, {arcs[i].b : i \in {j \in 1..Len(arcs) : arcs[j].a = m}}, Len(arcs))
      /\ \A m \in Froms(arcs) :
           /\ Cardinality({i \in 1..Len(arcs) : arcs[i].b = m}) <= 1
           /\ \A o \in nodes : o[2] = m[2] => o = m

--------------------------------------------------------------------------
(* Presentation: arcs over five locators, two of the same concept; possibly  *)
(* a second link whose labels mean other concepts.                           *)

PreKs == <<1001, 1002, 1003, 1004, 1004>>
PreKs2 == <<1004, 1001, 1005, 1002, 1003>>

PreInit == [Bare EXCEPT !.pre = <<Link(1, 1, PreKs)>>]

PreNext ==
  \/ \E a \in 1..3, b \in 1..5, o \in {-5, 10, 20} :
       LET g == AddArc("pre", [a |-> a, b |-> b, o |-> o])
       IN  /\ a # b /\ Tree(ArcsOfRole(g.pre, 1))
           /\ f' = g
  \/ /\ Len(f.pre) = 1 /\ Len(f.pre[1].arcs) \in 1..2
     /\ \E file \in {1} : f' = [f EXCEPT !.pre = Append(@, Link(1, file, PreKs2))]

PreDone == \A i \in 1..Len(f.pre) : f.pre[i].arcs # <<>>

--------------------------------------------------------------------------
(* Calculation *)

CalNext ==
  \/ \E a \in 1..3, b \in 2..4, o \in {10, 20}, w \in {10, -25} :
       /\ a < b /\ ~HasArc(LastLink("cal"), a, b)
       /\ f' = AddArc("cal", [a |-> a, b |-> b, o |-> o, w |-> w])
  \/ /\ Len(f.cal) = 1 /\ Len(f.cal[1].arcs) \in 1..2
     /\ f' = [f EXCEPT !.cal = Append(@, Link(1, 1, <<1004, 1003, 1007, 1001>>))]

CalInit == [Bare EXCEPT !.cal = <<Link(1, 1, <<1001, 1002, 1003, 1007>>)>>,
                        !.facts = <<Fact(1, 1002, 1, FALSE, 1)>>]
CalDone == \A i \in 1..Len(f.cal) : f.cal[i].arcs # <<>>

\* a sum in one link at most: otherwise two links would compete
CalFine == Len(f.cal) = 2 =>
  {LocOf(f.cal[1], f.cal[1].arcs[i].a)[2] : i \in 1..Len(f.cal[1].arcs)}
    \cap {LocOf(f.cal[2], f.cal[2].arcs[i].a)[2] : i \in 1..Len(f.cal[2].arcs)} = {}

--------------------------------------------------------------------------
(* Definition: a subset of these relationships *)

DefKs == <<1001, 1002, 1003, 1051, 1052, 1011, 1012, 1021, 1022, 1023>>
Rel(t, a, b, o, c, u, ce) ==
  [t |-> t, a |-> a, b |-> b, o |-> o, closed |-> c, usable |-> u, ce |-> ce, tr |-> 0, w |-> 0]
DefRels == <<
  Rel("dm", 1, 2, 20, 0, 0, 0), Rel("dm", 1, 3, 10, 0, 2, 0),
  Rel("all", 1, 4, 10, 1, 0, 1), Rel("all", 2, 4, 20, 2, 0, 2), Rel("not", 2, 5, 10, 0, 0, 1), Rel("all", 3, 5, 10, 0, 0, 0),
  Rel("hd", 4, 6, 20, 0, 0, 0), Rel("hd", 4, 7, 10, 0, 0, 0), Rel("hd", 5, 6, 10, 0, 0, 0),
  Rel("dd", 6, 8, 10, 0, 1, 0), Rel("dd", 7, 8, 10, 0, 2, 0), Rel("dd", 7, 10, 20, 0, 0, 0),
  Rel("df", 6, 8, 10, 0, 0, 0), Rel("df", 7, 9, 10, 0, 0, 0), Rel("df", 6, 9, 10, 0, 0, 0),
  Rel("dm", 8, 9, 10, 0, 2, 0), Rel("dm", 2, 3, 10, 0, 0, 0) >>

DefInit == [Bare EXCEPT !.concepts = @ \o <<Abstract(1051), Abstract(1052), Abstract(1011), Abstract(1012),
                                            Abstract(1021), Abstract(1022), Abstract(1023)>>,
                        !.def = <<Link(1, 1, DefKs)>>,
                        !.facts = <<Fact(1, 1002, 1, FALSE, 1)>>]

Rank(a) == CHOOSE i \in 1..Len(DefRels) : DefRels[i] = a
DefNext == \E i \in 1..Len(DefRels) :
  /\ \A j \in 1..Len(LastLink("def").arcs) : Rank(LastLink("def").arcs[j]) < i
  /\ f' = AddArc("def", DefRels[i])
  \* every item has one place in the tables
  /\ \A x, y \in 1..Len(f'.def[1].arcs) : LET p == f'.def[1].arcs[x] q == f'.def[1].arcs[y] IN
       (p.t = "dm" /\ q.t = "dm" /\ p.b = q.b) => x = y
DefDone == f.def[1].arcs # <<>>

--------------------------------------------------------------------------
(* Grids: contexts first, then facts; rows of three families of views *)

DimChoices == <<NoDims,
  [NoDims EXCEPT !.seg = <<Mem(1011, 1021)>>], [NoDims EXCEPT !.seg = <<Mem(1011, 1022)>>],
  [NoDims EXCEPT !.scen = <<Mem(1011, 1021)>>],
  [NoDims EXCEPT !.seg = <<Mem(1012, 1021), Mem(1011, 1021)>>],
  [NoDims EXCEPT !.seg = <<Mem(1012, 1022)>>, !.scen = <<Mem(1011, 1021)>>],
  [NoDims EXCEPT !.tseg = <<TMem(1)>>], [NoDims EXCEPT !.tscen = <<TMem(2)>>],
  [NoDims EXCEPT !.tseg = <<TMem(1)>>, !.seg = <<Mem(1011, 1021)>>],
  [NoDims EXCEPT !.tseg = <<TMem(0)>>] >>

GridInit ==
  [Bare EXCEPT
    !.concepts = @ \o <<Abstract(1011), Abstract(1012), Abstract(1021), Abstract(1022), TypedDim(1031, 1041), Domain(1041)>>,
    !.ctx = <<>>,
    !.pre = <<[Link(1, 1, <<1005, 1001, 1002>>) EXCEPT !.arcs = <<[a |-> 1, b |-> 2, o |-> 10], [a |-> 1, b |-> 3, o |-> 20]>>]>>,
    !.cal = <<[Link(1, 1, <<1002, 1004>>) EXCEPT !.arcs = <<[a |-> 1, b |-> 2, o |-> 10, w |-> 10]>>]>>]

GridNext ==
  \/ /\ f.facts = <<>> /\ Len(f.ctx) < 3
     /\ \E e \in {11, 12}, p \in {2, 1}, d \in 1..Len(DimChoices) :
          /\ f.ctx = <<>> => e = 11 /\ p = 2
          /\ Len(f.ctx) = 2 => e = 11 /\ p = 1
          /\ f' = [f EXCEPT !.ctx = Append(@, Ctx(Len(@) + 1, e, p, DimChoices[d]))]
  \/ /\ Len(f.ctx) >= 1
     /\ \E x \in 1..Len(f.ctx), c \in {1001, 1002}, nil \in BOOLEAN, idd \in {TRUE, FALSE} :
          /\ c = 1001 => ~nil
          /\ f.facts = <<>> => x = 1
          \* ids descend, so that document order and id order differ
          /\ f' = [f EXCEPT !.facts = Append(@, Fact(IF idd THEN 9 - Len(@) ELSE 0, c, x, nil, Len(@) + 1))]
GridDone == f.facts # <<>>

--------------------------------------------------------------------------
(* Footnotes: two facts with ids, one without *)

FootInit ==
  [Bare EXCEPT
    !.ctx = <<Ctx(1, 11, 1, NoDims), Ctx(2, 11, 3, NoDims)>>,
    !.facts = <<Fact(7, 1001, 1, FALSE, 1), Fact(5, 1002, 2, FALSE, 2), Fact(0, 1001, 2, FALSE, 3)>>,
    !.pre = <<[Link(1, 1, <<1005, 1001, 1002>>) EXCEPT !.arcs = <<[a |-> 1, b |-> 2, o |-> 10], [a |-> 1, b |-> 3, o |-> 20]>>]>>,
    !.fn = <<[locs |-> <<>>, notes |-> <<>>, arcs |-> <<>>]>>]

NotesSoFar == Cardinality(UNION {{<<i, j>> : j \in 1..Len(f.fn[i].notes)} : i \in 1..Len(f.fn)})
LastFn == f.fn[Len(f.fn)]

\* parts of a link in the order locators, footnotes, arcs
FootNext ==
  \/ /\ LastFn.notes = <<>> /\ LastFn.arcs = <<>>
     /\ \E l \in 1..2, x \in {7, 5} :
          /\ ~\E i \in 1..Len(LastFn.locs) : LastFn.locs[i].f = x
          /\ LastFn.locs = <<>> => l = 1
          /\ f' = [f EXCEPT !.fn[Len(f.fn)].locs = Append(@, [l |-> l, f |-> x])]
  \/ /\ LastFn.arcs = <<>> /\ LastFn.locs # <<>> /\ Len(LastFn.notes) < 2
     /\ \E l \in 1..2 :
          f' = [f EXCEPT !.fn[Len(f.fn)].notes = Append(@, [l |-> l, id |-> NotesSoFar + 1])]
  \/ /\ LastFn.notes # <<>>
     /\ \E a, b \in 1..2 :
          /\ ~\E i \in 1..Len(LastFn.arcs) : LastFn.arcs[i] = [a |-> a, b |-> b]
          /\ f' = [f EXCEPT !.fn[Len(f.fn)].arcs = Append(@, [a |-> a, b |-> b])]
  \/ /\ LastFn.arcs # <<>> /\ Len(f.fn) < 2
     /\ f' = [f EXCEPT !.fn = Append(@, [locs |-> <<>>, notes |-> <<>>, arcs |-> <<>>])]
FootDone == LastFn.arcs # <<>>

--------------------------------------------------------------------------
(* Labels of two concepts *)

LabInit ==
  [Bare EXCEPT
    !.facts = <<Fact(1, 1001, 1, FALSE, 1)>>,
    !.pre = <<[Link(1, 1, <<1005, 1001, 1002>>) EXCEPT !.arcs = <<[a |-> 1, b |-> 2, o |-> 10], [a |-> 1, b |-> 3, o |-> 20]>>]>>,
    !.lab = <<[f |-> 1, locs |-> <<[l |-> 1, k |-> 1001], [l |-> 2, k |-> 1002]>>, arcs |-> <<>>, res |-> <<>>]>>]
LastLab == f.lab[Len(f.lab)]
TextsSoFar == Cardinality(UNION {{<<i, j>> : j \in 1..Len(f.lab[i].res)} : i \in 1..Len(f.lab)})

LabNext ==
  \/ /\ LastLab.arcs = <<>>
     /\ \E l \in 1..2, role \in {1, 2, 4}, lang \in 1..4 :
          /\ LastLab.res = <<>> => l = 1
          /\ f' = [f EXCEPT !.lab[Len(f.lab)].res = Append(@, [l |-> l, role |-> role, lang |-> lang, t |-> TextsSoFar + 1])]
  \/ /\ LastLab.res # <<>>
     /\ \E a, b \in 1..2 :
          /\ ~\E i \in 1..Len(LastLab.arcs) : LastLab.arcs[i] = [a |-> a, b |-> b]
          /\ f' = [f EXCEPT !.lab[Len(f.lab)].arcs = Append(@, [a |-> a, b |-> b])]
  \/ /\ LastLab.arcs # <<>> /\ Len(f.lab) < 2
     /\ \E file \in {1, 2} :
        f' = [f EXCEPT !.lab = Append(@, [f |-> file, locs |-> <<[l |-> 2, k |-> 1001], [l |-> 1, k |-> 1005]>>, arcs |-> <<>>, res |-> <<>>])]
LabDone == LastLab.arcs # <<>>

--------------------------------------------------------------------------
(* Catalog: roles with equal and different titles, entities, names *)

CatInit == [Bare EXCEPT !.roles = <<>>, !.ctx = <<>>]
CatNext ==
  \/ \E r \in 1..3, t \in 1..2, file \in 1..2 :
       /\ \A i \in 1..Len(f.roles) : f.roles[i].r # r
       /\ f' = [f EXCEPT !.roles = Append(@, [r |-> r, t |-> t, f |-> file])]
  \/ /\ f.roles # <<>>
     /\ \E e \in {11, 12, 21} : f' = [f EXCEPT !.ctx = Append(@, Ctx(Len(@) + 1, e, 1, NoDims))]
  \/ /\ f.ctx # <<>>
     /\ \E e \in {11, 21, 31} : e \notin Range(f.names) /\ f' = [f EXCEPT !.names = Append(@, e)]
CatDone == f.ctx # <<>>

--------------------------------------------------------------------------
(* Single facts: contexts with dimensions, facts and tags; all questions *)

SingleInit ==
  [GridInit EXCEPT !.inline = TRUE,
     !.ctx = <<Ctx(1, 11, 2, DimChoices[2]), Ctx(2, 11, 1, DimChoices[7])>>,
     !.queries = <<[k |-> 1001, x |-> 1], [k |-> 1002, x |-> 1], [k |-> 1001, x |-> 2], [k |-> 1003, x |-> 1], [k |-> 1001, x |-> 3]>>]
SingleNext ==
  \/ /\ f.tags = <<>> /\ Len(f.facts) < 3
     /\ \E x \in 1..2, c \in {1001, 1002}, nil \in BOOLEAN, idd \in BOOLEAN :
          /\ nil => c = 1002
          /\ f' = [f EXCEPT !.facts = Append(@, Fact(IF idd THEN 9 - Len(@) ELSE 0, c, x, nil, Len(@) + 1))]
  \/ /\ f.facts # <<>>
     /\ \E k \in {1001, 1002, 1003}, x \in 1..3 :
          /\ [k |-> k, x |-> x] \notin Range(f.tags)
          /\ f' = [f EXCEPT !.tags = Append(@, [k |-> k, x |-> x])]
SingleDone == f.tags # <<>>

--------------------------------------------------------------------------
Init == /\ n = 0
        /\ f = CASE Family = "pre" -> PreInit [] Family = "cal" -> CalInit [] Family = "def" -> DefInit
                 [] Family = "grid" -> GridInit [] Family = "foot" -> FootInit [] Family = "lab" -> LabInit
                 [] Family = "cat" -> CatInit [] Family = "single" -> SingleInit

Next == /\ n < Depth
        /\ n' = n + 1
        /\ \/ Family = "pre" /\ PreNext
           \/ Family = "cal" /\ CalNext
           \/ Family = "def" /\ DefNext
           \/ Family = "grid" /\ GridNext
           \/ Family = "foot" /\ FootNext
           \/ Family = "lab" /\ LabNext
           \/ Family = "cat" /\ CatNext
           \/ Family = "single" /\ SingleNext

Done == CASE Family = "pre" -> PreDone [] Family = "cal" -> CalDone /\ CalFine [] Family = "def" -> DefDone
          [] Family = "grid" -> GridDone [] Family = "foot" -> FootDone [] Family = "lab" -> LabDone
          [] Family = "cat" -> CatDone [] Family = "single" -> SingleDone

Spec == Init /\ [][Next]_vars

\* prints every finished filing
Emit == Done => PrintT("JSON " \o ToJson(f))
=============================================================================
