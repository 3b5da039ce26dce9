----------------------------- MODULE MarkupGen ------------------------------
(***************************************************************************)
(* All text blocks of up to Depth tokens ("block"), and all documents of up *)
(* to Depth elements next to every set of files ("document").               *)
(***************************************************************************)
EXTENDS Markup, Json, SequencesExt

CONSTANTS Family, Depth

VARIABLE start

Tok(k, n, t) == [k |-> k, n |-> n, t |-> t]
BlockTokens == <<
  Tok("text", "", <<"a">>), Tok("text", "", <<"<", "b", ">">>), Tok("text", "", <<"&", "l", "t", ";">>),
  Tok("open", "p", <<>>), Tok("close", "p", <<>>), Tok("open", "table", <<>>), Tok("close", "table", <<>>),
  Tok("open", "tr", <<>>), Tok("open", "td", <<>>), Tok("open", "td colspan=\"2\"", <<>>), Tok("close", "td", <<>>),
  Tok("open", "th colspan='3'", <<>>), Tok("close", "th", <<>>),
  Tok("void", "br", <<>>), Tok("void", "td", <<>>), Tok("void", "img src=\"x>y\" onerror='<td>'", <<>>),
  Tok("open", "b title=\"</table>\"", <<>>), Tok("close", "b", <<>>),
  Tok("raw", "script", <<"x", "<", "t", "d", ">">>), Tok("comment", "<td>", <<>>)>>

Words(n, k) == UNION {[1..j -> 1..n] : j \in 0..k}
Listed(S) == SetToSeq(S)

Blocks == LET tails == Listed(Words(Len(BlockTokens), 1))
          IN  [i \in 1..Len(tails) |-> LET w == start \o tails[i] IN [j \in 1..Len(w) |-> BlockTokens[w[j]]]]

--------------------------------------------------------------------------
El(n, a) == [k |-> "el", n |-> n, a |-> a, t |-> ""]
At(n, v) == [n |-> n, v |-> v]
Text(t) == [k |-> "text", n |-> "", a |-> <<>>, t |-> t]
DocItems == <<
  El("img", <<At("src", <<"pic.png">>), At("alt", <<"pic.png">>)>>),
  El("img", <<At("alt", <<"a & \"b\" <c>">>), At("src", <<"dir", "pic.jpg">>), At("width", <<"10">>)>>),
  El("img", <<At("src", <<"http:", "", "host", "pic.png">>)>>),
  El("img", <<At("src", <<"anim.gif">>)>>),
  El("img", <<At("src", <<"fake.png">>)>>),
  El("img", <<At("src", <<"Pic.png">>), At("alt", <<"">>)>>),
  El("input", <<At("src", <<"pic.png">>), At("type", <<"image">>)>>),
  El("a", <<At("href", <<"pic.png">>)>>),
  El("ix:nonfraction", <<At("name", <<"own:Item0">>), At("contextref", <<"c1">>)>>),
  El("script", <<At("src", <<"pic.png">>)>>), El("div", <<>>),
  Text("plain"), Text("a < b && c > d"), Text("<img src=\"pic.png\"/>")>>

Kinds == <<[n |-> "pic.png", kind |-> "png"], [n |-> "pic.jpg", kind |-> "jpeg"], [n |-> "anim.gif", kind |-> "gif"],
           [n |-> "fake.png", kind |-> "text"]>>
FileSets == {Filter(Kinds, LAMBDA f : f \in S) : S \in SUBSET Range(Kinds)}

Documents == Listed({[files |-> fs, doc |-> [j \in 1..Len(start) |-> DocItems[start[j]]]] : fs \in FileSets})

Init == start \in (IF Family = "block" THEN Words(Len(BlockTokens), Depth - 1) ELSE Words(Len(DocItems), Depth))
Next == FALSE /\ UNCHANGED start
Spec == Init /\ [][Next]_start
Emit == PrintT("JSON " \o (IF Family = "block" THEN ToJson([blocks |-> Blocks, style |-> 0])
                           ELSE ToJson([docs |-> Documents, style |-> 0])))
=============================================================================
