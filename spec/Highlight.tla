----------------------------- MODULE Highlight ------------------------------
(***************************************************************************)
(* All texts up to a length, put through all chains of transformers up to  *)
(* a length; the plan is read from the file named by PIECES:               *)
(*   alphabet   characters           max      length of the texts          *)
(*   patterns   see Marks            chain    number of transformers       *)
(* The pieces which each leads to go to OUT, where the harness compares    *)
(* them with those of the implementation.                                  *)
(***************************************************************************)
EXTENDS Marks, Json, IOUtils, TLC

Plan == ndJsonDeserialize(IOEnv.PIECES)[1]
OutDir == IOEnv.OUT
Alphabet == Plan.alphabet
\* sets are written as lists
Pattern(p) == CASE p.k = "lit" -> [k |-> "lit", s |-> p.s]
                [] p.k = "start" -> [k |-> "start"]
                [] OTHER -> [k |-> p.k, of |-> ToSet(p.s)]
Results == << [k |-> "con", style |-> "bold"], [k |-> "str", pre |-> <<"(">>, post |-> <<")">>] >>

Joined(cs) == FoldLeft(LAMBDA a, c : a \o c, "", cs)

VARIABLES text, chain, pieces, stage
vars == <<text, chain, pieces, stage>>

Init == text = <<>> /\ chain = <<>> /\ pieces = <<>> /\ stage = "text"

Type == /\ stage = "text" /\ Len(text) < Plan.max
        /\ \E i \in 1..Len(Alphabet) : text' = Append(text, Alphabet[i])
        /\ UNCHANGED <<chain, pieces, stage>>
Start == /\ stage = "text"
         /\ stage' = "transform" /\ pieces' = <<TextPiece(text)>>
         /\ UNCHANGED <<text, chain>>
Apply == /\ stage = "transform" /\ Len(chain) < Plan.chain
         /\ \E i \in 1..Len(Plan.patterns), j \in 1..2 :
              /\ chain' = Append(chain, <<i, j>>)
              /\ pieces' = Transform([pat |-> Pattern(Plan.patterns[i]), make |-> Results[j]], pieces)
         /\ UNCHANGED <<text, stage>>

\* what all chains lead to, for the text
Steps == (1..Len(Plan.patterns)) \X (1..2)
Chains == SetToSeq(UNION {[1..k -> Steps] : k \in 1..Plan.chain})
Made(ch) == [i \in 1..Len(ch) |-> [pat |-> Pattern(Plan.patterns[ch[i][1]]), make |-> Results[ch[i][2]]]]
Shape(p) == IF p.k = "text" THEN <<"text", Joined(p.s)>> ELSE <<p.style, Joined(p.s)>>
Publish ==
  /\ stage = "text"
  /\ ndJsonSerialize(OutDir \o "/text-" \o FoldLeft(LAMBDA a, c : a \o ToString(CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = c), "", text) \o ".json",
       [i \in 1..Len(Chains) |->
          LET ps == Marked(text, Made(Chains[i])) IN
          [text |-> Joined(text), chain |-> Chains[i], pieces |-> [j \in 1..Len(ps) |-> Shape(ps[j])]]])
  /\ stage' = "published"
  /\ UNCHANGED <<text, chain, pieces>>

Next == Type \/ Start \/ Apply \/ Publish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the characters of the code in the pieces
Code == FlattenSeq([i \in 1..Len(pieces) |-> SelectSeq(pieces[i].s, LAMBDA c : c \notin {"(", ")"})])

\* nothing is lost, repeated or moved
AllThere == stage = "transform" => Code = text
\* of what the last transformer matches, nothing is left as it was, unless the
\* transformer itself has put it there
Transformed ==
  chain # <<>> /\ Results[chain[Len(chain)][2]].k = "con" =>
    \A i \in 1..Len(pieces) : pieces[i].k = "text" =>
      \A m \in ToSet(Matches(Pattern(Plan.patterns[chain[Len(chain)][1]]), pieces[i].s)) : m[2] = 0
\* only what matches is taken out of the text
OnlyMatches ==
  \A i \in 1..Len(pieces) : pieces[i].k = "con" =>
    \E j \in 1..Len(chain) :
      /\ Results[chain[j][2]].k = "con"
      /\ \E m \in ToSet(Matches(Pattern(Plan.patterns[chain[j][1]]), pieces[i].s)) :
            m = <<1, Len(pieces[i].s)>>
\* no text is empty, except where a match is
NoEmptyText == \A i \in 1..Len(pieces) : pieces[i].k = "text" /\ Len(text) > 0 => pieces[i].s # <<>>
=============================================================================
