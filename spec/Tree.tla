-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The tree of sections.  `secs' is the sequence of all sections, a        *)
(* section being identified by its index; 0 is no section.                 *)
(*                                                                         *)
(*   [parent, children, path, title, body, ptag, tags, style, parts,       *)
(*    split, prevent, reset, omit, lenient, plugins, tline, tcol, iline,   *)
(*    icol]     lenient: broken references are allowed                     *)
(*                                                                         *)
(* A tag is [name, title, anchor, c, line, col].                           *)
(***************************************************************************)
EXTENDS Strings

NewSection(parent, path, plugins, nothing, lenient) ==
  [parent |-> parent, children |-> <<>>, path |-> path, title |-> nothing,
   body |-> nothing, ptag |-> "", tags |-> <<>>, style |-> "", parts |-> <<>>,
   split |-> FALSE, prevent |-> FALSE, reset |-> FALSE, omit |-> FALSE,
   lenient |-> lenient, plugins |-> plugins, tline |-> 0, tcol |-> 0, iline |-> 0, icol |-> 0]

RECURSIVE FilePath(_, _)
FilePath(secs, s) ==
  IF s = 0 THEN "" ELSE IF secs[s].path # "" THEN secs[s].path ELSE FilePath(secs, secs[s].parent)

RECURSIVE Ancestors(_, _)
Ancestors(secs, s) == IF s = 0 THEN <<>> ELSE <<s>> \o Ancestors(secs, secs[s].parent)

RECURSIVE SplitPrevented(_, _)
SplitPrevented(secs, s) ==
  s # 0 /\ (secs[s].prevent \/ SplitPrevented(secs, secs[s].parent))

\* the section and everything below it, in document order
RECURSIVE Below(_, _)
Below(secs, s) ==
  <<s>> \o FlattenSeq([i \in 1..Len(secs[s].children) |-> Below(secs, secs[s].children[i])])

\* position among the siblings; a section which is loaded below another one, but
\* is not one of its children, comes after them
Listed(secs, s) ==
  LET ch == secs[secs[s].parent].children IN \E i \in 1..Len(ch) : ch[i] = s
IndexIn(secs, s) ==
  LET ch == secs[secs[s].parent].children IN
  IF Listed(secs, s) THEN CHOOSE i \in 1..Len(ch) : ch[i] = s ELSE Len(ch) + 1

RECURSIVE Number(_, _)
Number(secs, s) ==
  LET p == secs[s].parent IN
  IF p = 0 THEN ""
  ELSE LET n == Number(secs, p) IN
       (IF n = "" THEN "" ELSE n \o ".") \o Num(IndexIn(secs, s))

RECURSIVE Depth(_, _), PageDepth(_, _)
Depth(secs, s) == IF secs[s].parent = 0 THEN 0 ELSE Depth(secs, secs[s].parent) + 1
PageDepth(secs, s) ==
  LET p == secs[s].parent IN
  IF p = 0 \/ secs[p].reset THEN 0 ELSE PageDepth(secs, p) + 1
HeaderLevel(secs, s) == LET d == PageDepth(secs, s) + 1 IN IF d > 6 THEN 6 ELSE d

\* navigation
RECURSIVE NextSibling(_, _)
NextSibling(secs, s) ==
  LET p == secs[s].parent IN
  IF p = 0 THEN 0
  ELSE LET i == IndexIn(secs, s) IN
       IF i < Len(secs[p].children) THEN secs[p].children[i + 1] ELSE NextSibling(secs, p)
NextSection(secs, s) ==
  IF secs[s].split /\ secs[s].children # <<>> THEN secs[s].children[1] ELSE NextSibling(secs, s)
PrevSection(secs, s) ==
  LET p == secs[s].parent IN
  IF p = 0 THEN 0
  ELSE LET i == IndexIn(secs, s) IN
       IF i > 1 /\ Listed(secs, s) THEN secs[p].children[i - 1] ELSE p

\* pages
OwnPage(secs, s) == secs[s].parent = 0 \/ secs[secs[s].parent].split
RECURSIVE PageOwner(_, _)
PageOwner(secs, s) == IF OwnPage(secs, s) THEN s ELSE PageOwner(secs, secs[s].parent)
\* where a tag of section s, with an anchor or not, is found
PageOf(secs, s, ext) == secs[PageOwner(secs, s)].ptag \o "." \o ext
FragmentOf(secs, s, anchor) ==
  IF anchor = "" /\ PageOwner(secs, s) # s THEN secs[s].ptag ELSE anchor
\* the sections which are rendered on the page of s, in order
RECURSIVE OnPage(_, _)
OnPage(secs, s) ==
  <<s>> \o IF secs[s].split THEN <<>>
           ELSE FlattenSeq([i \in 1..Len(secs[s].children) |-> OnPage(secs, secs[s].children[i])])

\* Has anchors on its page
RECURSIVE HasAnchors(_, _)
HasAnchors(secs, s) ==
  \/ \E i \in 1..Len(secs[s].tags) : secs[s].tags[i].anchor # ""
  \/ ~secs[s].split /\ \E i \in 1..Len(secs[s].children) : HasAnchors(secs, secs[s].children[i])

\* x is s, or below it
InTree(secs, s, x) == x \in ToSet(Below(secs, s))

\* x is s, or directly below it
Near(secs, s, x) == x = s \/ x \in ToSet(secs[s].children)

\* all tags which satisfy Want, from s outwards: <<section, tag>>
RECURSIVE TagsBelow(_, _, _), TagsFrom(_, _, _)
TagsBelow(secs, s, exclude) ==
  [i \in 1..Len(secs[s].tags) |-> <<s, secs[s].tags[i]>>]
  \o FlattenSeq([i \in 1..Len(secs[s].children) |->
       IF secs[s].children[i] = exclude THEN <<>> ELSE TagsBelow(secs, secs[s].children[i], 0)])
TagsFrom(secs, s, exclude) ==
  TagsBelow(secs, s, exclude)
  \o IF secs[s].parent = 0 THEN <<>> ELSE TagsFrom(secs, secs[s].parent, s)
AllTags(secs, s) == TagsFrom(secs, s, 0)
FindTag(secs, s, name) == SelectSeq(AllTags(secs, s), LAMBDA t : t[2].name = name)
SimilarTags(secs, s, name) == SelectSeq(AllTags(secs, s), LAMBDA t : Similar(name, t[2].name))
=============================================================================
