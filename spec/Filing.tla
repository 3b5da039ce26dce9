------------------------------- MODULE Filing -------------------------------
(***************************************************************************)
(* What a filing says and what must be shown of it.                        *)
(*                                                                         *)
(* A filing F is a record of finite sequences.  Everything that the real   *)
(* system compares as text is an integer here; the driver that turns a     *)
(* filing into files keeps the order of the integers.                      *)
(*                                                                         *)
(*  F.concepts  [k, abs, bal, typ]       declared concepts                  *)
(*  F.roles     [r, t]                   declared roles and their titles    *)
(*  F.ctx       [id, e, p, seg, scen, tseg, tscen]  contexts                *)
(*                 seg/scen   : explicit members [d, m]                     *)
(*                 tseg/tscen : typed members [d, els], els of [k, up, v]   *)
(*  F.facts     [id, c, x, n, v]         id 0 = no id; v = value token      *)
(*  F.pre       [r, f, locs, arcs]       locs [l, k], arcs [a, b, o]        *)
(*  F.cal       the same with arcs [a, b, o, w]                             *)
(*  F.def       the same with arcs [a, b, o, t, closed, usable, ce, tr]     *)
(*  F.lab       [f, locs, arcs, res]     arcs [a, b], res [l, role, lang, t]*)
(*  F.fn        [locs, notes, arcs]      locs [l, f], notes [l, id]         *)
(*  F.names     registered entities                                        *)
(*                                                                         *)
(* Anything else in F (noise, concrete spellings) has no meaning here.     *)
(***************************************************************************)
EXTENDS Util

--------------------------------------------------------------------------
(* Concepts and contexts *)

Declared(F) == {F.concepts[i].k : i \in 1..Len(F.concepts)}
ConceptOf(F, k) == F.concepts[CHOOSE i \in 1..Len(F.concepts) : F.concepts[i].k = k]
IsReportable(F, k) == k \in Declared(F) /\ ~ConceptOf(F, k).abs
BalanceOf(F, k) == IF k \in Declared(F) THEN ConceptOf(F, k).bal ELSE 0

CtxIds(F) == {F.ctx[i].id : i \in 1..Len(F.ctx)}
CtxOf(F, x) == F.ctx[CHOOSE i \in 1..Len(F.ctx) : F.ctx[i].id = x]
Entities(F) == {F.ctx[i].e : i \in 1..Len(F.ctx)}

\* facts that mean something: of a declared concept in a declared context
Facts(F) == SelectSeq(F.facts, LAMBDA f : f.c \in Declared(F) /\ f.x \in CtxIds(F))

--------------------------------------------------------------------------
(* Networks.  A node is the pair <<label, concept>>: a label means something *)
(* only inside its own link, and links of one role in one file are one       *)
(* network.                                                                  *)

LocOf(link, l) ==
  LET S == {i \in 1..Len(link.locs) : link.locs[i].l = l}
  IN  IF S = {} THEN <<l, -1>>
      ELSE <<l, link.locs[CHOOSE i \in S : \A j \in S : i <= j].k>>

LinksOf(links, r, f) == SelectSeq(links, LAMBDA x : x.r = r /\ x.f = f)
FilesOf(links, r) == {links[i].f : i \in {j \in 1..Len(links) : links[j].r = r}}

\* the arcs of a role in one file, in document order, with resolved ends
ArcsIn(links, r, f) ==
  Flat(Map(LinksOf(links, r, f),
           LAMBDA ln : Map(ln.arcs, LAMBDA a : [a EXCEPT !.a = LocOf(ln, a.a), !.b = LocOf(ln, a.b)])))

FirstFile(links, r) ==
  LET S == FilesOf(links, r) IN CHOOSE f \in S : \A g \in S : f <= g

\* a role may be spread over several files
ArcsOfRole(links, r) ==
  Flat(Map(SetToSortedSeq(FilesOf(links, r)), LAMBDA f : ArcsIn(links, r, f)))

--------------------------------------------------------------------------
(* Ordered trees *)

Froms(arcs) == {arcs[i].a : i \in 1..Len(arcs)}
Tos(arcs) == {arcs[i].b : i \in 1..Len(arcs)}
Roots(arcs) == Froms(arcs) \ Tos(arcs)

\* children in ascending order value, ties in document order
Kids(arcs, n) ==
  Map(StableSort(SelectSeq(arcs, LAMBDA a : a.a = n), LAMBDA a : a.o), LAMBDA a : a.b)

\* The known deviation: an arc to a node counts with order 0 when a child of
\* that node comes earlier among all arcs of the network sorted by order.
KidsDeviant(arcs, n) ==
  LET sorted == StableSort(arcs, LAMBDA a : a.o)
      early(i) == \E j \in 1..(i-1) : sorted[j].a = sorted[i].b
      eff == [i \in 1..Len(sorted) |-> [b |-> sorted[i].b, a |-> sorted[i].a,
                                       o |-> IF early(i) THEN 0 ELSE sorted[i].o]]
  IN  Map(StableSort(SelectSeq(eff, LAMBDA a : a.a = n), LAMBDA a : a.o), LAMBDA a : a.b)

KidsOf(arcs, n, deviant) == IF deviant THEN KidsDeviant(arcs, n) ELSE Kids(arcs, n)

\* node, then its subtree, one level deeper
RECURSIVE Block(_, _, _, _)
Block(arcs, n, level, deviant) ==
  <<[k |-> n[2], lv |-> level]>>
    \o Flat(Map(KidsOf(arcs, n, deviant), LAMBDA c : Block(arcs, c, level + 1, deviant)))

\* Blocks of a row list, cut before every row of level 0.
RECURSIVE CutBlocks(_, _)
CutBlocks(rows, acc) ==
  IF rows = <<>> THEN acc
  ELSE IF Head(rows).lv = 0 \/ acc = <<>>
       THEN CutBlocks(Tail(rows), Append(acc, <<Head(rows)>>))
       ELSE CutBlocks(Tail(rows), [acc EXCEPT ![Len(acc)] = Append(@, Head(rows))])

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

Forest(arcs, deviant) == Map(SetSeq(Roots(arcs)), LAMBDA n : Block(arcs, n, 0, deviant))

--------------------------------------------------------------------------
(* Presentation rows (C07) *)

RowsMatch(rows, arcs, deviant) == SameBag(CutBlocks(rows, <<>>), Forest(arcs, deviant))

RowsVerdict(F, r, rows) ==
  IF FilesOf(F.pre, r) = {} THEN (IF rows = <<>> THEN "ok" ELSE "bad")
  ELSE LET all == ArcsOfRole(F.pre, r)
           one == ArcsIn(F.pre, r, FirstFile(F.pre, r))
       IN  CASE RowsMatch(rows, all, FALSE) -> "ok"
             [] RowsMatch(rows, all, TRUE) -> "order"
             [] all # one /\ RowsMatch(rows, one, FALSE) -> "split"
             [] all # one /\ RowsMatch(rows, one, TRUE) -> "split"
             [] OTHER -> "bad"

--------------------------------------------------------------------------
(* Columns, dimension headers and cells of a grid whose row concepts are ks *)

Relevant(F, e, ks) ==
  LET fs == Facts(F)
      hit == {fs[i].x : i \in {j \in 1..Len(fs) : fs[j].c \in Range(ks) /\ IsReportable(F, fs[j].c)}}
  IN  SelectSeq(F.ctx, LAMBDA x : x.e = e /\ x.id \in hit)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

MemberCount(x) ==
  Len(x.seg) + Len(x.scen)
    + SumSeq(Map(x.tseg, LAMBDA t : Len(t.els))) + SumSeq(Map(x.tscen, LAMBDA t : Len(t.els)))

Explicit(x) == {<<m.d, 0, m.m>> : m \in Range(x.seg) \cup Range(x.scen)}
Typed(x) == UNION {{<<t.d, el.k, el.v>> : el \in Range(t.els)} : t \in Range(x.tseg) \cup Range(x.tscen)}
\* what the header of the context's column must show
Members(x) == Explicit(x) \cup {m \in Typed(x) : m[3] # 0}
\* header rows that the context needs
NeededRows(x) == {<<m[1], 0>> : m \in Explicit(x)} \cup {<<m[1], m[2]>> : m \in Typed(x)}
AllowedRows(x) == NeededRows(x) \cup {<<m[1], 0>> : m \in Typed(x)}

\* what column j of grid g shows as dimension members
ShownMembers(g, j) ==
  {<<g.hdr[i].d, g.hdr[i].td, g.mem[i][j]>> : i \in {h \in 1..Len(g.hdr) : g.mem[h][j] # 0}}

Shape(g, nrows) ==
  /\ Len(g.mem) = Len(g.hdr)
  /\ \A i \in 1..Len(g.mem) : Len(g.mem[i]) = Len(g.cols)
  /\ (Len(g.cols) > 0 /\ nrows > 0) =>
       /\ Len(g.cells) = nrows
       /\ \A i \in 1..nrows : Len(g.cells[i]) = Len(g.cols)
       /\ Len(g.fn) = nrows
       /\ \A i \in 1..nrows : Len(g.fn[i]) = Len(g.cols)
  /\ (Len(g.cols) = 0) => g.cells = <<>>

\* columns (C08)
ColumnsOK(F, e, ks, g) ==
  LET xs == Relevant(F, e, ks)
      sorted == StableSort(xs, LAMBDA x : x.p * 1000 + MemberCount(x))
  IN  /\ Shape(g, Len(ks))
      /\ Len(g.cols) = Len(xs)
      /\ SameBag([j \in 1..Len(g.cols) |-> <<g.cols[j], ShownMembers(g, j)>>],
                 Map(xs, LAMBDA x : <<x.p, Members(x)>>))
      /\ \A j \in 1..Len(g.cols) :
           \E i \in 1..Len(xs) :
             /\ xs[i].p = sorted[j].p
             /\ MemberCount(xs[i]) = MemberCount(sorted[j])
             /\ <<g.cols[j], ShownMembers(g, j)>> = <<xs[i].p, Members(xs[i])>>

\* dimension headers (C10): the shown columns are compared by their members alone
HeadersOK(F, e, ks, g) ==
  LET xs == Relevant(F, e, ks)
      hdr == {<<g.hdr[i].d, g.hdr[i].td>> : i \in 1..Len(g.hdr)}
  IN  /\ Len(g.mem) = Len(g.hdr)
      /\ \A i \in 1..Len(g.mem) : Len(g.mem[i]) = Len(g.cols)
      /\ Len(g.cols) = Len(xs) =>
           SameBag([j \in 1..Len(g.cols) |-> <<g.cols[j], ShownMembers(g, j)>>],
                   Map(xs, LAMBDA x : <<x.p, Members(x)>>))
      /\ UNION {NeededRows(x) : x \in Range(xs)} \subseteq hdr
      /\ hdr \subseteq UNION {AllowedRows(x) : x \in Range(xs)}
      \* a typed domain row comes below the row of its own dimension
      /\ \A i \in 1..Len(g.hdr) : g.hdr[i].td # 0 =>
           \E h \in 1..(i-1) : /\ g.hdr[h].d = g.hdr[i].d
                               /\ g.hdr[h].td = 0
                               /\ \A m \in h..i : g.hdr[m].d = g.hdr[i].d

\* the fact for a concept in a context: the first in id order
FactAt(F, k, x) ==
  LET fs == Facts(F)
      S == {i \in 1..Len(fs) : fs[i].c = k /\ fs[i].x = x}
  IN  IF S = {} THEN [id |-> -1, n |-> FALSE, v |-> 0]
      ELSE fs[CHOOSE i \in S : \A j \in S :
                fs[i].id < fs[j].id \/ (fs[i].id = fs[j].id /\ i <= j)]

NilToken == -2
Token(f) == IF f.id = -1 THEN 0 ELSE IF f.n THEN NilToken ELSE f.v
CellsOf(F, ks, x) == [i \in 1..Len(ks) |-> Token(FactAt(F, ks[i], x))]

\* cells (C09): every column together with its period and members
CellsOK(F, e, ks, g) ==
  LET xs == Relevant(F, e, ks)
  IN  /\ Shape(g, Len(ks))
      /\ Len(g.cols) = Len(xs) =>
         SameBag([j \in 1..Len(g.cols) |-> <<g.cols[j], ShownMembers(g, j), [i \in 1..Len(ks) |-> g.cells[i][j]]>>],
                 Map(xs, LAMBDA x : <<x.p, Members(x), CellsOf(F, ks, x.id)>>))
      /\ Len(g.cols) # Len(xs) =>
         \A j \in 1..Len(g.cols), i \in 1..Len(ks) : g.cells[i][j] \in
            {0} \cup {Token(FactAt(F, ks[i], xs[m].id)) : m \in 1..Len(xs)}

--------------------------------------------------------------------------
(* Footnotes (C11) *)

\* footnotes linked to the fact with this id
NotesOf(F, fid) ==
  IF fid <= 0 THEN {}
  ELSE UNION {UNION {
         IF \E i \in 1..Len(ln.locs) : ln.locs[i].l = a.a /\ ln.locs[i].f = fid
         THEN {n.id : n \in {m \in Range(ln.notes) : m.l = a.b}}
         ELSE {} : a \in Range(ln.arcs)} : ln \in Range(F.fn)}

FootnotesOK(F, e, ks, g) ==
  LET xs == Relevant(F, e, ks)
      used == UNION {NotesOf(F, FactAt(F, ks[i], xs[j].id).id) : i \in 1..Len(ks), j \in 1..Len(xs)}
      marks(i, j) == {g.notes[g.fn[i][j][m]] : m \in 1..Len(g.fn[i][j])}
      inRange(i, j) == \A m \in 1..Len(g.fn[i][j]) : g.fn[i][j][m] \in 1..Len(g.notes)
  IN  /\ Shape(g, Len(ks))
      /\ Len(g.cols) = Len(xs)
      /\ NoDup(g.notes)
      /\ Range(g.notes) = used
      /\ \A j \in 1..Len(g.cols), i \in 1..Len(ks) : inRange(i, j) /\ NoDup(g.fn[i][j])
      /\ SameBag([j \in 1..Len(g.cols) |->
                    <<g.cols[j], ShownMembers(g, j), [i \in 1..Len(ks) |-> g.cells[i][j]],
                      [i \in 1..Len(ks) |-> marks(i, j)]>>],
                 Map(xs, LAMBDA x : <<x.p, Members(x), CellsOf(F, ks, x.id),
                      [i \in 1..Len(ks) |-> NotesOf(F, FactAt(F, ks[i], x.id).id)]>>))

--------------------------------------------------------------------------
(* Calculation view (C12) *)

CalArcs(F, r) == IF FilesOf(F.cal, r) = {} THEN <<>> ELSE ArcsOfRole(F.cal, r)
CalArcsFirst(F, r) == IF FilesOf(F.cal, r) = {} THEN <<>> ELSE ArcsIn(F.cal, r, FirstFile(F.cal, r))

Sums(F, arcs) == {arcs[i].a[2] : i \in 1..Len(arcs)}
ShownSums(F, arcs) == Sums(F, arcs) \cap Declared(F)

Contributors(F, arcs, k) ==
  Map(StableSort(SelectSeq(arcs, LAMBDA a : a.a[2] = k /\ a.b[2] \in Declared(F)), LAMBDA a : a.o),
      LAMBDA a : [k |-> a.b[2], neg |-> a.w < 0, scale |-> Abs(a.w),
                  bal |-> BalanceOf(F, a.b[2]), sum |-> a.b[2] \in Sums(F, arcs)])

CalRows(item) == Append(Map(item.con, LAMBDA c : c.k), item.k)

CalMatch(F, arcs, items) ==
  /\ NoDup(Map(items, LAMBDA it : it.k))
  /\ {items[i].k : i \in 1..Len(items)} = ShownSums(F, arcs)
  /\ \A i \in 1..Len(items) :
       /\ items[i].bal = BalanceOf(F, items[i].k)
       /\ items[i].con = Contributors(F, arcs, items[i].k)
       /\ (items[i].g.cells # <<>>) => Len(items[i].g.cells) = Len(items[i].con) + 1

--------------------------------------------------------------------------
(* Dimensional relationships (C13) *)

DefArcs(F, r) == IF FilesOf(F.def, r) = {} THEN <<>> ELSE ArcsOfRole(F.def, r)

LinkShown(a) ==
  [a |-> a.a[2], b |-> a.b[2], t |-> a.t,
   o |-> IF a.t \in {"all", "not", "other"} THEN 0 ELSE a.o,
   def |-> a.t = "df",
   usable |-> IF a.t \in {"dm", "dd"} THEN a.usable # 2 ELSE TRUE,
   closed |-> IF a.t \in {"all", "not"} THEN a.closed = 1 ELSE FALSE,
   ce |-> IF a.t \in {"all", "not"} THEN a.ce ELSE 0,
   tr |-> IF a.t = "other" THEN 0 ELSE a.tr]

RelationsOK(F, r, nodes, links) ==
  LET arcs == DefArcs(F, r)
  IN  /\ SameBag(links, Map(arcs, LinkShown))
      /\ NoDup(nodes)
      /\ Range(nodes) = {arcs[i].a[2] : i \in 1..Len(arcs)} \cup {arcs[i].b[2] : i \in 1..Len(arcs)}

--------------------------------------------------------------------------
(* Effective domains (C14); every file's network of the role by itself *)

OfKind(arcs, t) == SelectSeq(arcs, LAMBDA a : a.t = t)

RECURSIVE Below(_, _)
Below(arcs, n) == {n} \cup UNION {Below(arcs, arcs[i].b) : i \in {j \in 1..Len(arcs) : arcs[j].a = n}}

PrimaryRoots(arcs) ==
  Roots(OfKind(arcs, "dm")) \ (Tos(OfKind(arcs, "dd")) \cup Tos(OfKind(arcs, "df")))

TableRows(arcs, root, deviant) == Block(OfKind(arcs, "dm"), root, -1, deviant)

Dims(arcs) == {OfKind(arcs, "hd")[i].b[2] : i \in 1..Len(OfKind(arcs, "hd"))}

\* hypercubes of kind t that item k has and that include dimension d
Cubes(arcs, k, d, t) ==
  {h \in Tos(OfKind(arcs, t)) :
     /\ \E a \in Range(OfKind(arcs, t)) : a.a[2] = k /\ a.b = h
     /\ \E a \in Range(OfKind(arcs, "hd")) : a.a = h /\ a.b[2] = d}

DomainMembers(arcs, d) ==
  UNION {{n[2] : n \in Below(OfKind(arcs, "dm"), a.b)} :
           a \in {b \in Range(OfKind(arcs, "dd")) : b.a[2] = d}}
Defaults(arcs, d) == {a.b[2] : a \in {b \in Range(OfKind(arcs, "df")) : b.a[2] = d}}

Listed(arcs, d, struck) ==
  {[k |-> m, def |-> TRUE, str |-> struck] : m \in Defaults(arcs, d)}
    \cup {[k |-> m, def |-> FALSE, str |-> struck] : m \in DomainMembers(arcs, d)}

EffectiveDomain(arcs, k, d) ==
  (IF Cubes(arcs, k, d, "all") # {} THEN Listed(arcs, d, FALSE) ELSE {})
    \cup (IF Cubes(arcs, k, d, "not") # {} THEN Listed(arcs, d, TRUE) ELSE {})

TableMatch(arcs, root, tab, deviant) ==
  LET rows == <<[k |-> tab.k, lv |-> -1]>> \o tab.items
  IN  /\ rows = TableRows(arcs, root, deviant)
      /\ NoDup(tab.dims)
      /\ Range(tab.dims) = Dims(arcs)
      /\ Len(tab.ed) = Len(rows)
      /\ \A i \in 1..Len(rows) :
           /\ Len(tab.ed[i]) = Len(tab.dims)
           /\ \A j \in 1..Len(tab.dims) :
                /\ NoDup(tab.ed[i][j])
                /\ Range(tab.ed[i][j]) = EffectiveDomain(arcs, rows[i].k, tab.dims[j])

\* the roots of all files, each with its file's arcs
Tables(F, r) ==
  Flat(Map(SetToSortedSeq(FilesOf(F.def, r)),
           LAMBDA f : LET arcs == ArcsIn(F.def, r, f)
                      IN Map(SetSeq(PrimaryRoots(arcs)), LAMBDA n : [arcs |-> arcs, root |-> n])))

\* shown tables correspond one to one to expected ones; fits[i] is the set of
\* expectations that table i meets
RECURSIVE Assign(_, _, _)
Assign(fits, i, left) ==
  IF i > Len(fits) THEN left = {}
  ELSE \E x \in fits[i] \cap left : Assign(fits, i + 1, left \ {x})

DomainsVerdict(F, r, tabs) ==
  LET exps == Tables(F, r)
      fits(devs) == [i \in 1..Len(tabs) |-> {j \in 1..Len(exps) :
                       \E d \in devs : TableMatch(exps[j].arcs, exps[j].root, tabs[i], d)}]
      matches(devs) == Assign(fits(devs), 1, 1..Len(exps))
  IN  CASE Len(tabs) # Len(exps) -> "bad"
        [] matches({FALSE}) -> "ok"
        [] matches({FALSE, TRUE}) -> "order"
        [] OTHER -> "bad"

TabRows(tab) == <<tab.k>> \o Map(tab.items, LAMBDA i : i.k)

--------------------------------------------------------------------------
(* Labels (C15).  Shown labels are <<kind, lang, text>>; kinds 1..3, langs   *)
(* 1 = reference, 2 = short reference, 3 = English, 4 = Spanish.             *)

LangOf(l) == CASE l \in {1, 2} -> 3 [] l = 3 -> 4 [] OTHER -> 0

LabelsFor(F, k) ==
  UNION {UNION {
    IF \E i \in 1..Len(ln.locs) : ln.locs[i].l = a.a /\ ln.locs[i].k = k
    THEN {<<x.role, LangOf(x.lang), x.t>> :
            x \in {y \in Range(ln.res) : y.l = a.b /\ y.role \in 1..3 /\ LangOf(y.lang) # 0}}
    ELSE {} : a \in Range(ln.arcs)} : ln \in Range(F.lab)}

PackOK(F, k, pack) ==
  LET want == LabelsFor(F, k)
      got == {<<pack[i].role, pack[i].lang, pack[i].t>> : i \in 1..Len(pack)}
      key(x) == <<x[1], x[2]>>
  IN  /\ Len(pack) = Cardinality(got)
      /\ <<1, 1, k>> \in got                     \* its reference
      /\ {x \in got : x[2] = 2} \subseteq {<<1, 2, k>>}
      /\ {x \in got : x[2] \notin {1, 2}} \subseteq want
      /\ {x \in got : x[2] = 1} = {<<1, 1, k>>}
      /\ {key(x) : x \in want} = {key(x) : x \in {y \in got : y[2] \notin {1, 2}}}
      /\ \A x, y \in got : key(x) = key(y) => x = y

\* kinds and languages used by a list of shown labels
KindsOf(packs) == UNION {{packs[i].lab[j].role : j \in 1..Len(packs[i].lab)} : i \in 1..Len(packs)}
LangsOf(packs) == UNION {{packs[i].lab[j].lang : j \in 1..Len(packs[i].lab)} : i \in 1..Len(packs)}

\* kinds and languages for which the filing has labels at all
KindsIn(F) == {1} \cup UNION {{x.role : x \in Range(ln.res)} : ln \in Range(F.lab)}
LangsIn(F) == {1, 2} \cup UNION {{LangOf(x.lang) : x \in Range(ln.res)} : ln \in Range(F.lab)}

LabelsOK(F, view) ==
  /\ \A i \in 1..Len(view.labs) : PackOK(F, view.labs[i].k, view.labs[i].lab)
  /\ LET heads == SelectSeq(view.labs, LAMBDA x : x.head)
     IN  /\ KindsOf(heads) \subseteq Range(view.kinds)
         /\ LangsOf(heads) \subseteq Range(view.langs)
         /\ Range(view.kinds) \subseteq KindsIn(F)
         /\ Range(view.langs) \subseteq LangsIn(F)
         /\ NoDup(view.kinds) /\ NoDup(view.langs)

--------------------------------------------------------------------------
(* Catalog (C04) *)

Pairs(F) == {<<e, x.r>> : e \in Entities(F), x \in Range(F.roles)}

CatalogOK(F, cat) ==
  /\ cat.subs = Map(SetToSortedSeq(Entities(F)),
                    LAMBDA e : [e |-> e, name |-> IF e \in Range(F.names) THEN 1 ELSE 0])
  /\ cat.rsets = Map(StableSort(StableSort(F.roles, LAMBDA x : x.r), LAMBDA x : x.t),
                     LAMBDA x : [r |-> x.r, t |-> x.t])
  /\ SameBag(Map(cat.nets, LAMBDA n : <<n.e, n.r>>), SetSeq(Pairs(F)))

SlugsOK(cat) == NoDup(Map(cat.nets, LAMBDA n : n.slug))

\* The roles 91 and 92 are written with URIs and titles whose concatenations
\* are the same: the known finding about addresses.
Alike == {91, 92}
SlugsDeviant(cat) ==
  \A i, j \in 1..Len(cat.nets) :
    (i # j /\ cat.nets[i].slug = cat.nets[j].slug) =>
      cat.nets[i].e = cat.nets[j].e /\ {cat.nets[i].r, cat.nets[j].r} = Alike

ViewTitlesOK(F, v) ==
  /\ ~v.err
  /\ v.subj = v.e
  /\ v.name = (IF v.e \in Range(F.names) THEN 1 ELSE 0)
  /\ v.rs = v.r
  /\ \E x \in Range(F.roles) : x.r = v.r /\ x.t = v.title

--------------------------------------------------------------------------
(* Single facts (C18).  A query names a concept and a context. *)

SingleExpected(F, q) ==
  /\ q.k \in Declared(F) /\ q.x \in CtxIds(F)
  /\ \E f \in Range(F.tags) : f.k = q.k
  /\ \E f \in Range(F.tags) : f.x = q.x
  /\ FactAt(F, q.k, q.x).id # -1

SingleOK(F, s) ==
  IF ~SingleExpected(F, s.q) THEN ~s.found
  ELSE LET x == CtxOf(F, s.q.x)
           f == FactAt(F, s.q.k, s.q.x)
       IN  /\ s.found
           /\ s.k = s.q.k
           /\ PackOK(F, s.q.k, s.lab)
           /\ s.p = x.p
           /\ Len(s.g.mem) = Len(s.g.hdr)
           /\ \A i \in 1..Len(s.g.mem) : Len(s.g.mem[i]) = 1
           /\ ShownMembers(s.g, 1) = Members(x)
           /\ LET hdr == {<<s.g.hdr[i].d, s.g.hdr[i].td>> : i \in 1..Len(s.g.hdr)}
              IN  NeededRows(x) \subseteq hdr /\ hdr \subseteq AllowedRows(x)
           /\ s.tok = Token(f)
           /\ NoDup(s.notes) /\ Range(s.notes) = NotesOf(F, f.id)

=============================================================================
