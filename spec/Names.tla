------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* How concept names resolve (C21).                                         *)
(*                                                                         *)
(* Lookups: in.files are schemas [n, far, state, ns, as, els] with elements *)
(* [name, id, d]; d tells the declaration, 0 an element that declares no    *)
(* concept; as is the namespace it is imported for, 0 its own.              *)
(*  in.names are the qualified names [ns, name] and in.hrefs the   *)
(* references [n, id] that are looked up.  An answer is [found, n, id, ns,  *)
(* name, d]; looking up a name also answers the reference it gave.          *)
(***************************************************************************)
EXTENDS Util

\* a schema from far away that is imported for another namespace than its own
Mistaken(f) == f.far /\ f.as \notin {0, f.ns}

Declared(in) ==
  UNION {{[n |-> f.n, id |-> e.id, ns |-> f.ns, name |-> e.name, d |-> e.d, lost |-> Mistaken(f)] : e \in {x \in Range(f.els) : x.d # 0}}
         : f \in {g \in Range(in.files) : g.state = "ok"}}

Fits(a, c) == a.n = c.n /\ a.id = c.id /\ a.ns = c.ns /\ a.name = c.name /\ a.d = c.d

\* one of several equal candidates, or nothing when there is none; a lost one
\* may be found
Resolves(a, candidates) ==
  IF a.found THEN \E c \in candidates : Fits(a, c) ELSE \A c \in candidates : c.lost

NameOK(in, q, a) == Resolves(a, {c \in Declared(in) : c.ns = q.ns /\ c.name = q.name})
HrefOK(in, q, a) == Resolves(a, {[c EXCEPT !.lost = FALSE] : c \in {x \in Declared(in) : x.n = q.n /\ x.id = q.id}})

LookupOK(in, out) ==
  /\ \A i \in 1..Len(in.names) :
       /\ NameOK(in, in.names[i], out.names[i])
       /\ out.names[i].found => HrefOK(in, [n |-> out.names[i].n, id |-> out.names[i].id], out.again[i])
  /\ \A i \in 1..Len(in.hrefs) : HrefOK(in, in.hrefs[i], out.hrefs[i])

--------------------------------------------------------------------------
(* Prefixes: in.binds are the bindings [p, ns] of an inline document, in    *)
(* their order.  Namespaces 1..6 have reserved prefixes.  Of every binding  *)
(* is seen which namespace a name with the prefix has and which prefix a    *)
(* name gets when it is rewritten, coming with the prefix (q) or with the   *)
(* namespace (m).                                                           *)

Reserved == <<"", "xbrldi", "xlink", "xsi", "iso4217", "link">>

PrefixOK(in, out) ==
  /\ Len(out.binds) = Len(in.binds)
  /\ ~out.stray  \* a name with an unbound prefix has no namespace
  /\ \A i \in 1..Len(in.binds) :
       LET b == in.binds[i]
           o == out.binds[i]
       IN  /\ o.ns = b.ns
           /\ o.local
           /\ IF b.ns \in 1..Len(Reserved) THEN o.q = Reserved[b.ns] ELSE o.q \notin Range(Reserved)
           /\ o.m = o.q \/ \E j \in 1..Len(in.binds) : in.binds[j].ns = b.ns /\ out.binds[j].q = o.m
           /\ \A j \in 1..Len(in.binds) : in.binds[j].ns # b.ns => out.binds[j].q # o.q /\ out.binds[j].m # o.m
=============================================================================
