------------------------------- MODULE Author -------------------------------
(***************************************************************************)
(* Writes every document that can be put together from given pieces, up to *)
(* a given size, and builds each of them as in Pipeline.  The pieces are   *)
(* read from the file named by PIECES:                                     *)
(*   prefix, suffix  text at the start and at the end of each document     *)
(*   max             how much may be written, in terms of the cost         *)
(*   pieces          what can be written next:                             *)
(*     text    characters; # stands for the position in the document       *)
(*     close   characters to be written in the end, or by a piece with pop *)
(*     kind    name of what is opened                                      *)
(*     pop     whether the piece closes what was opened last               *)
(*     within  names of what the piece can be directly within ("" is the   *)
(*             document itself); anything if empty                         *)
(*     cost    1 or more                                                   *)
(*   files           further files                                         *)
(*   variants        ways in which each document is built                  *)
(* Documents and outcomes go to OUT, where the harness finds them.         *)
(***************************************************************************)
EXTENDS Pipeline

Plan == ndJsonDeserialize(IOEnv.PIECES)[1]
Pieces == Plan.pieces

VARIABLES seq,    \* pieces written
          open,   \* what has to be closed
          text,   \* the document so far
          left    \* cost that can still be spent

avars == <<vars, seq, open, text, left>>
AView == <<seq, stage, n>>

Top == IF open = <<>> THEN "" ELSE open[Len(open)].kind

AInit == /\ seq = <<>> /\ open = <<>> /\ text = Plan.prefix /\ left = Plan.max
         /\ n = 0 /\ doc = None /\ stage = "writing"
         /\ files = None /\ st = None /\ G = None /\ site = None /\ err = NoErr

Numbered(t, i) == FlattenSeq([j \in 1..Len(t) |-> IF t[j] = "#" THEN <<ToString(i)>> ELSE <<t[j]>>])

WritePiece ==
  /\ stage = "writing"
  /\ \E i \in 1..Len(Pieces) :
       LET p == Pieces[i] IN
       /\ p.cost <= left
       /\ p.within = <<>> \/ \E j \in 1..Len(p.within) : p.within[j] = Top
       /\ p.pop => open # <<>>
       /\ seq' = Append(seq, i)
       /\ left' = left - p.cost
       /\ text' = text \o (IF p.pop THEN open[Len(open)].close ELSE <<>>) \o Numbered(p.text, Len(seq) + 1)
       /\ open' = IF p.pop THEN SubSeq(open, 1, Len(open) - 1)
                  ELSE IF p.kind # "" THEN Append(open, [kind |-> p.kind, close |-> p.close])
                  ELSE open
  /\ UNCHANGED vars

\* everything that is open is closed, and the document is built
Finish ==
  /\ stage = "writing"
  /\ \E v \in 1..Len(Plan.variants) :
       /\ n' = v
       /\ doc' = [Plan.variants[v] EXCEPT !.files =
                    <<[path |-> Plan.variants[v].root,
                       src |-> text \o FlattenSeq([i \in 1..Len(open) |-> open[Len(open) + 1 - i].close])
                               \o Plan.suffix]>> \o @]
  /\ stage' = "new"
  /\ UNCHANGED <<files, st, G, site, err, seq, open, text, left>>

RECURSIVE PathOf(_)
PathOf(s) == IF s = <<>> THEN "" ELSE "-" \o ToString(Head(s)) \o PathOf(Tail(s))

Publish ==
  /\ stage \in {"rendered", "failed"}
  /\ JsonSerialize(OutDir \o "/" \o ToString(n) \o PathOf(seq) \o ".json", [doc |-> doc, outcome |-> Outcome])
  /\ stage' = "done"
  /\ UNCHANGED <<n, doc, files, st, G, site, err, seq, open, text, left>>

Build == (ParseAll \/ Evaluate \/ Collect \/ RenderAll) /\ UNCHANGED <<seq, open, text, left>>

ANext == WritePiece \/ Finish \/ Build \/ Publish
ASpec == AInit /\ [][ANext]_avars
=============================================================================
