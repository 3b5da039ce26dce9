------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Which files references and URLs may lead to (C20).                       *)
(*                                                                         *)
(* A path is a sequence of steps; "" and "." stay, ".." leaves the last     *)
(* step.                                                                    *)
(***************************************************************************)
EXTENDS Util

Stay == {"", "."}

\* the steps that are left, or <<"..">> at the front where a path leads out
RECURSIVE Walk(_, _)
Walk(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET s == Head(todo)
           rest == Tail(todo)
       IN  IF s \in Stay THEN Walk(done, rest)
           ELSE IF s # ".." THEN Walk(Append(done, s), rest)
           ELSE IF done = <<>> \/ done[Len(done)] = ".." THEN Walk(Append(done, ".."), rest)
           ELSE Walk(SubSeq(done, 1, Len(done) - 1), rest)

\* below a root, ".." at the root stays there
RECURSIVE Below(_, _)
Below(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET s == Head(todo)
           rest == Tail(todo)
       IN  IF s \in Stay THEN Below(done, rest)
           ELSE IF s # ".." THEN Below(Append(done, s), rest)
           ELSE IF done = <<>> THEN Below(done, rest)
           ELSE Below(SubSeq(done, 1, Len(done) - 1), rest)

(* A URL is [scheme, host, steps] (host in small letters); it was resolved  *)
(* to [ok, below, file]: refused, or to a file below the taxonomy set.       *)
(* Loading it gives what that file holds, and fails without one: empty says  *)
(* whether it loaded when there were no files, made whether there was a file *)
(* the second time, and own and other what was loaded then.                  *)
Normal(u) == [scheme |-> u.scheme, host |-> u.host, path |-> Below(<<>>, u.steps)]

UrlsOK(urls, out) ==
  LET served == {i \in 1..Len(urls) : out[i].ok}
      pairs == {<<out[i].file, Normal(urls[i])>> : i \in served}
  IN  /\ Len(out) = Len(urls)
      /\ \A i \in served : out[i].below
      /\ Cardinality({p[1] : p \in pairs}) = Cardinality(pairs)
      /\ \A i \in 1..Len(urls) : ~out[i].empty /\ ~out[i].other /\ (out[i].made <=> out[i].own)

(* A folder holds files, each a path; its references are [k, steps], where  *)
(* k "id" is not a reference but the identifier of a folder in a request    *)
(* and k "image" a picture of the source document.                          *)
(* Of the others was seen what they loaded: the content (a path) or nothing.        *)
(* touched are the files outside that were opened.                          *)
Plain(r) == r.steps # <<>> /\ r.steps[Len(r.steps)] \notin Stay /\ ~\E i \in 1..Len(r.steps) : r.steps[i] = ".."
Rooted(r) == r.steps # <<>> /\ r.steps[1] = ""

Odd == {"id", "image"}

\* where the folder is; a reference may leave it and come back
Home == <<"wd", "folders", "folder">>
Place(r) ==
  LET w == Walk(Home, r.steps)
  IN  IF Len(w) >= 3 /\ SubSeq(w, 1, 3) = Home THEN SubSeq(w, 4, Len(w)) ELSE <<"..">>

RefOK(files, r, loaded) ==
  LET w == Place(r)
  IN  /\ r.k \in Odd => loaded = <<>>
      /\ Range(loaded) \subseteq {w}
      /\ Range(loaded) \subseteq Range(files)
      /\ r.k \notin Odd /\ Plain(r) /\ ~Rooted(r) /\ w \in Range(files) => loaded = <<w>>

RefsOK(files, refs, out) ==
  /\ out.touched = <<>>
  /\ Len(out.loaded) = Len(refs)
  /\ \A i \in 1..Len(refs) : RefOK(files, refs[i], out.loaded[i])
=============================================================================
