------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* Content: what documents evaluate to.                                    *)
(*                                                                         *)
(*   [k |-> "nil"]                              nothing                    *)
(*   [k |-> "str", s]                           text                       *)
(*   [k |-> "seq"|"para"|"pre", n]              pieces, lines              *)
(*   [k |-> "styled", style, block, c, parts]   parts: sequence of pairs   *)
(*   [k |-> "link", c, target]                                             *)
(*   [k |-> "ref", sec, tag, c, opt, line, col] c may be nil               *)
(*   [k |-> "target", tag, title, c, line, col] c may be nil               *)
(*   [k |-> "list", n, ordered]                                            *)
(*   [k |-> "table", rows]      [k |-> "defs", n]  n: sequence of pairs    *)
(*   [k |-> "image", path, desc]   [k |-> "toc", sec]                      *)
(*   [k |-> "aux", c]           [k |-> "lazy", block, c, fails, err]       *)
(***************************************************************************)
EXTENDS Tree

Nil == [k |-> "nil"]
Str(s) == [k |-> "str", s |-> s]
Empty == Str("")
SeqOf_(n) == [k |-> "seq", n |-> n]
Styled(style, c) == [k |-> "styled", style |-> style, block |-> FALSE, c |-> c, parts |-> <<>>]

\* content is accumulated by appending
AppendC(a, b) ==
  IF b.k = "nil" THEN a
  ELSE IF a.k = "nil" THEN b
  ELSE IF a.k = "seq" THEN SeqOf_(Append(a.n, b))
  ELSE SeqOf_(<<a, b>>)

AppendAll(cs) == FoldLeft(LAMBDA a, b : AppendC(a, b), Nil, cs)

\* flow content fits within a sentence; block content stands alone
RECURSIVE IsFlow(_)
IsFlow(c) ==
  CASE c.k \in {"str", "ref", "target", "image"} -> TRUE
    [] c.k = "seq" -> \A i \in 1..Len(c.n) : IsFlow(c.n[i])
    [] c.k = "styled" -> ~c.block /\ IsFlow(c.c)
    [] c.k \in {"link", "aux"} -> IsFlow(c.c)
    [] c.k = "lazy" -> ~c.block
    [] OTHER -> FALSE

\* the title which a reference without content shows in a summary
RefTitle(secs, r) ==
  LET t == FindTag(secs, r.sec, r.tag) IN
  IF Len(t) = 1 THEN t[1][2].title
  ELSE IF secs[r.sec].lenient THEN Str("{broken reference: " \o r.tag \o "}")
  ELSE Str("{broken reference: " \o r.tag \o ": "
           \o (IF t = <<>> THEN "unknown tag '" ELSE "ambiguous target for tag '") \o r.tag \o "'}")

\* a plain-text summary; within its own title (active), a reference shows nothing
RECURSIVE SummaryIn(_, _, _)
SummaryIn(secs, active, c) ==
  LET Summary(x, y) == SummaryIn(x, active, y)
      me == <<c.sec, c.tag, c.line, c.col>>
  IN
  CASE c.k = "str" -> c.s
    [] c.k = "seq" -> Concat([i \in 1..Len(c.n) |-> Summary(secs, c.n[i])])
    [] c.k = "para" ->
         LET s == FoldLeft(LAMBDA a, l : (IF a # "" THEN a \o " " ELSE a) \o Summary(secs, l), "", c.n)
         IN IF s = "" THEN "" ELSE s \o "\n\n"
    [] c.k = "pre" -> Concat([i \in 1..Len(c.n) |-> Summary(secs, c.n[i]) \o "\n"])
    [] c.k \in {"styled", "link", "aux"} -> Summary(secs, c.c)
    [] c.k = "ref" -> IF c.c.k # "nil" THEN Summary(secs, c.c)
                     ELSE IF me \in active THEN ""
                     ELSE SummaryIn(secs, active \cup {me}, RefTitle(secs, c))
    [] c.k \in {"target", "toc", "nil"} -> ""
    [] c.k = "list" ->
         Concat([i \in 1..Len(c.n) |->
           LET text == FoldLeft(LAMBDA a, l : IF a = "" THEN l
                                              ELSE IF l = "" THEN a \o "\n"
                                              ELSE a \o "\n  " \o l,
                                "", Split(TrimRightC(Summary(secs, c.n[i]), "\n"), "\n"))
           IN (IF c.ordered THEN Num(i) \o ". " ELSE "* ") \o text \o "\n\n"])
    [] c.k = "table" ->
         Concat([i \in 1..Len(c.rows) |->
           "|" \o Concat([j \in 1..Len(c.rows[i]) |-> " " \o Summary(secs, c.rows[i][j]) \o " |"]) \o "\n"]) \o "\n"
    [] c.k = "defs" ->
         Concat([i \in 1..Len(c.n) |-> Summary(secs, c.n[i][1]) \o ": " \o Summary(secs, c.n[i][2]) \o "\n"]) \o "\n"
    [] c.k = "image" -> "{image: " \o c.path \o "}"
    [] c.k = "lazy" -> IF c.block THEN "<lazy block>" ELSE "<lazy flow>"

Summary(secs, c) == SummaryIn(secs, {}, c)

\* Remove all auxiliary content below c
RECURSIVE StripAux(_)
StripAux(c) ==
  LET nested(x) == IF x.k = "aux" THEN Empty ELSE StripAux(x)
      inner(x) == IF x.k = "nil" THEN x ELSE nested(x)
      seq(n) == LET keep == SelectSeq(n, LAMBDA x : x.k # "aux") IN
                [i \in 1..Len(keep) |-> StripAux(keep[i])]
  IN
  CASE c.k \in {"seq", "para", "pre"} -> [c EXCEPT !.n = seq(@)]
    [] c.k = "list" -> [c EXCEPT !.n = seq(@)]
    [] c.k = "aux" -> StripAux(c.c)
    [] c.k = "styled" -> [c EXCEPT !.c = nested(@),
                                   !.parts = [i \in 1..Len(@) |-> <<@[i][1], nested(@[i][2])>>]]
    [] c.k = "link" -> [c EXCEPT !.c = nested(@)]
    [] c.k = "lazy" -> [c EXCEPT !.c = inner(@)]
    [] c.k = "ref" -> [c EXCEPT !.c = inner(@)]
    [] c.k = "target" -> [c EXCEPT !.title = inner(@), !.c = inner(@)]
    [] c.k = "table" -> [c EXCEPT !.rows = [i \in 1..Len(@) |-> seq(@[i])]]
    [] c.k = "defs" -> [c EXCEPT !.n = [i \in 1..Len(@) |-> <<nested(@[i][1]), nested(@[i][2])>>]]
    [] OTHER -> c

\* no auxiliary content is left anywhere below c
RECURSIVE NoAux(_)
NoAux(c) ==
  CASE c.k \in {"seq", "para", "pre", "list"} -> \A i \in 1..Len(c.n) : NoAux(c.n[i])
    [] c.k = "aux" -> FALSE
    [] c.k \in {"link", "ref", "lazy"} -> NoAux(c.c)
    [] c.k = "styled" -> NoAux(c.c) /\ \A i \in 1..Len(c.parts) : NoAux(c.parts[i][2])
    [] c.k = "target" -> NoAux(c.title) /\ NoAux(c.c)
    [] c.k = "table" -> \A i \in 1..Len(c.rows) : \A j \in 1..Len(c.rows[i]) : NoAux(c.rows[i][j])
    [] c.k = "defs" -> \A i \in 1..Len(c.n) : NoAux(c.n[i][1]) /\ NoAux(c.n[i][2])
    [] OTHER -> TRUE

\* the texts in c, in order: what must never be lost, repeated or reordered
RECURSIVE Texts(_)
Texts(c) ==
  CASE c.k = "str" -> IF c.s = "" THEN <<>> ELSE <<c.s>>
    [] c.k \in {"seq", "para", "pre", "list"} -> FlattenSeq([i \in 1..Len(c.n) |-> Texts(c.n[i])])
    [] c.k \in {"styled", "link", "aux", "ref", "lazy"} -> Texts(c.c)
    [] c.k = "table" -> FlattenSeq([i \in 1..Len(c.rows) |->
                           FlattenSeq([j \in 1..Len(c.rows[i]) |-> Texts(c.rows[i][j])])])
    [] c.k = "defs" -> FlattenSeq([i \in 1..Len(c.n) |-> Texts(c.n[i][1]) \o Texts(c.n[i][2])])
    [] OTHER -> <<>>
=============================================================================
