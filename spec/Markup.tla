------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* Text blocks (C23) and source documents (C22).                            *)
(*                                                                         *)
(* A text block is a sequence of HTML tokens [k, n, t]: "text" (t is the    *)
(* text, a sequence of one-character strings), "open", "close", "void" (n   *)
(* is the element), "raw" (an element n whose content t is not parsed, such *)
(* as a script), "comment".  What is shown is a sequence of [k, n, t] with  *)
(* "text", "open", "close", "br", and "other" for any markup that is not a  *)
(* bare table, row, cell or line break.                                     *)
(***************************************************************************)
EXTENDS Util

White == {" ", "\n", "\t", "\r"}
Ink(t) == Filter(t, LAMBDA c : c \notin White)

\* the text of a block, without white space
Inked(tokens) == Ink(Flat(Map(Filter(tokens, LAMBDA x : x.k \in {"text", "raw"}), LAMBDA x : x.t)))

BlockOK(filed, shown) ==
  /\ \A x \in Range(shown) : \/ x.k \in {"text", "br"}
                             \/ x.k \in {"open", "close"} /\ x.n \in {"table", "tr", "th", "td"}
  /\ Inked(shown) = Inked(filed)

--------------------------------------------------------------------------
(* A document is a sequence of "text" [k, n, a, t] and "el" with attributes *)
(* a, a sequence of [n, v].  The folder's files are [n, kind].              *)

\* a reference is a path, a sequence of steps
LastStep(v) == v[Len(v)]

Pictures(files) == {f.n : f \in {g \in Range(files) : g.kind \in {"png", "jpeg"}}}

\* what an attribute is served as: its value, or the content of a file
Attribute(files, el, a) ==
  IF el = "img" /\ a.n = "src" /\ a.v # <<>> /\ LastStep(a.v) \in Pictures(files)
  THEN [n |-> a.n, v |-> <<"content of", LastStep(a.v)>>]
  ELSE a

Served(files, doc) ==
  [i \in 1..Len(doc) |->
     IF doc[i].k = "el" THEN [doc[i] EXCEPT !.a = [j \in 1..Len(@) |-> Attribute(files, doc[i].n, @[j])]] ELSE doc[i]]

DocumentOK(files, doc, out) ==
  /\ Pictures(files) = {} => out.same
  /\ out.doc = Served(files, doc)
=============================================================================
