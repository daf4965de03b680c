------------------------------- MODULE Marks --------------------------------
(***************************************************************************)
(* Transformations of code: what matches a pattern is replaced, and all    *)
(* else stays as it is, in its place.                                      *)
(*                                                                         *)
(* Text is a sequence of characters.  Patterns:                            *)
(*   [k |-> "lit", s]         the characters s                             *)
(*   [k |-> "one", of]        one character of the set                     *)
(*   [k |-> "some", of]       as many of the set as there are, at least 1  *)
(*   [k |-> "any", of]        as many of the set as there are, maybe none  *)
(*   [k |-> "start"]          the start of the text                        *)
(*                                                                         *)
(* A transformer is [pat, make]; make.k is "str" (the match as text with   *)
(* something around it, which later transformers may match again) or "con" *)
(* (content, which they leave alone).                                      *)
(*                                                                         *)
(* Pieces:  [k |-> "text", s]     [k |-> "con", s (the match), style]      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

\* how many characters match at position i of s (-1: no match)
RECURSIVE Run_(_, _, _)
Run_(of, s, i) == IF i > Len(s) \/ s[i] \notin of THEN 0 ELSE 1 + Run_(of, s, i + 1)
MatchAt(p, s, i) ==
  CASE p.k = "lit" -> IF i + Len(p.s) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p.s) - 1) = p.s
                      THEN Len(p.s) ELSE 0 - 1
    [] p.k = "one" -> IF i <= Len(s) /\ s[i] \in p.of THEN 1 ELSE 0 - 1
    [] p.k = "some" -> IF Run_(p.of, s, i) > 0 THEN Run_(p.of, s, i) ELSE 0 - 1
    [] p.k = "any" -> Run_(p.of, s, i)
    [] p.k = "start" -> IF i = 1 THEN 0 ELSE 0 - 1

\* all matches from the left which do not overlap, as <<position, length>>; an
\* empty match next to the previous match does not count
RECURSIVE FindAll(_, _, _, _)
FindAll(p, s, from, last) ==
  LET I == {i \in from..(Len(s) + 1) : MatchAt(p, s, i) >= 0} IN
  IF I = {} THEN <<>>
  ELSE LET i == CHOOSE j \in I : \A k \in I : j <= k
           n == MatchAt(p, s, i)
           rest == FindAll(p, s, IF n > 0 THEN i + n ELSE i + 1, i + n)
       IN IF n = 0 /\ i = last THEN rest ELSE <<<<i, n>>>> \o rest
Matches(p, s) == FindAll(p, s, 1, 0)

TextPiece(s) == [k |-> "text", s |-> s]
Make(t, m) == IF t.make.k = "str" THEN TextPiece(t.make.pre \o m \o t.make.post)
              ELSE [k |-> "con", s |-> m, style |-> t.make.style]

\* one transformer on a text
TransformAll(t, s) ==
  LET ms == Matches(t.pat, s)
      step(acc, m) ==
        [out |-> acc.out \o (IF m[1] > acc.at THEN <<TextPiece(SubSeq(s, acc.at, m[1] - 1))>> ELSE <<>>)
                         \o <<Make(t, SubSeq(s, m[1], m[1] + m[2] - 1))>>,
         at |-> m[1] + m[2]]
      all == FoldLeft(step, [out |-> <<>>, at |-> 1], ms)
  IN all.out \o (IF all.at <= Len(s) THEN <<TextPiece(SubSeq(s, all.at, Len(s)))>> ELSE <<>>)

\* each transformer works on the text which the ones before it have left
Transform(t, pieces) ==
  FlattenSeq([i \in 1..Len(pieces) |-> IF pieces[i].k = "text" THEN TransformAll(t, pieces[i].s)
                                       ELSE <<pieces[i]>>])
Marked(s, ts) == FoldLeft(LAMBDA ps, t : Transform(t, ps), <<TextPiece(s)>>, ts)
=============================================================================
