----------------------------- MODULE Discovery ------------------------------
(***************************************************************************)
(* Which files of a folder are loaded (C03).                                *)
(*                                                                         *)
(* A folder fd has                                                          *)
(*   refs    the references of the instance                                 *)
(*   files   [n, kind, ns, refs]: "schema" (ns its target namespace, refs   *)
(*           its references), "base" (a linkbase) or "broken"               *)
(* A reference is [k, h, to, far, ns, b]: k is "schema" (of the instance),  *)
(* "include", "import", "base" or "noise" (unusable); h is its text, to the *)
(* file it names, far tells that it is a URL; ns is the namespace of an     *)
(* import and b the kind of a linkbase reference.                           *)
(***************************************************************************)
EXTENDS Util

SchemaKinds == {"schema", "include", "import"}
BaseKinds == {"pre", "def", "cal", "lab"}

\* the files of a kind a reference names: one or none
Named(fd, r, kind) == IF r.far THEN {} ELSE {x \in Range(fd.files) : x.n = r.to /\ x.kind = kind}

LoadsSchema(fd, r) == r.k \in SchemaKinds /\ Named(fd, r, "schema") # {}
LoadsBase(fd, r) == r.k = "base" /\ Named(fd, r, "base") # {}

RECURSIVE Grow(_, _)
Grow(fd, S) ==
  LET more == {r.to : r \in {q \in UNION {Range(x.refs) : x \in {y \in Range(fd.files) : y.n \in S /\ y.kind = "schema"}} : LoadsSchema(fd, q)}}
  IN  IF more \subseteq S THEN S ELSE Grow(fd, S \cup more)

Reachable(fd) == Grow(fd, {r.to : r \in {q \in Range(fd.refs) : LoadsSchema(fd, q)}})

\* the references that count: of the instance and of the schemas reached
Live(fd) == Range(fd.refs) \cup UNION {Range(x.refs) : x \in {y \in Range(fd.files) : y.n \in Reachable(fd)}}

Bases(fd, b) == {r.to : r \in {q \in Live(fd) : LoadsBase(fd, q) /\ q.b = b}}

\* the namespaces introduced, each with the location a reference gave it
Scopes(fd) ==
  UNION {LET r == q IN
         IF r.k \in {"schema", "include"} THEN {[ns |-> x.ns, h |-> r.h] : x \in Named(fd, r, "schema")}
         ELSE IF r.k = "import" /\ (r.far \/ LoadsSchema(fd, r)) THEN {[ns |-> r.ns, h |-> r.h]}
         ELSE {} : q \in Live(fd)}

(* What was loaded is [schemas, pre, def, cal, lab, ns]: entries [h, c] with *)
(* the location and the content (the name of a file) of each, and [ns, h].   *)

Given(fd, to) == {r.h : r \in {q \in Live(fd) : q.to = to /\ ~q.far}}

Loaded(fd, entries, files) ==
  /\ {e.c : e \in Range(entries)} = files
  /\ \A e \in Range(entries) : e.h \in Given(fd, e.c)

FolderOK(fd, out) ==
  /\ Loaded(fd, out.schemas, Reachable(fd))
  /\ Loaded(fd, out.pre, Bases(fd, "pre"))
  /\ Loaded(fd, out.def, Bases(fd, "def"))
  /\ Loaded(fd, out.cal, Bases(fd, "cal"))
  /\ Loaded(fd, out.lab, Bases(fd, "lab"))
  /\ Range(out.ns) \subseteq Scopes(fd)
  /\ {s.ns : s \in Range(out.ns)} = {s.ns : s \in Scopes(fd)}
  /\ Cardinality({s.ns : s \in Range(out.ns)}) = Len(out.ns)
=============================================================================
