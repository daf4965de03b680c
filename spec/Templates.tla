----------------------------- MODULE Templates -----------------------------
(***************************************************************************)
(* Templates of the user, as they change on disk, and an engine which      *)
(* loads them before each use.  The templates are those of the page, of    *)
(* the style of the section ("fancy", not built in), of insets, and a      *)
(* helper which others may use.  What can be in each of them is given by   *)
(* the file named by SITE:                                                 *)
(*   kinds   for each template the kinds of its versions:                  *)
(*           "good"   shows name and version, and the content              *)
(*           "uses"   the same, by the helper                              *)
(*           "blank"  shows nothing                                        *)
(*           "bad"    cannot be parsed                                     *)
(*           "fails"  fails when it is used                                *)
(*   ops     edits: [f, v, how], as in Server.tla; v = 0 removes           *)
(*   rounds  number of edits                                               *)
(*   newer, forgetful, sloppy   mistakes an engine could make              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Site_ == ndJsonDeserialize(IOEnv.SITE)[1]
OutDir == IOEnv.OUT
Names == <<"page", "fancy", "inset", "helper">>
T == 1..Len(Names)
Ops == Site_.ops

VARIABLES disk,   \* version of each, 0 if there is none
          mtime, clock,
          times,  \* modification times seen when templates were last loaded: 0 if there was none
          loaded, \* versions in use
          answer, \* of the last use
          hist
vars == <<disk, mtime, clock, times, loaded, answer, hist>>
View == hist

Own(i, v) == 100 * i + v
LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Edits == Len(SelectSeq(hist, LAMBDA h : h.op = "edit"))

KindOf(i, v) == IF v = 0 THEN "none" ELSE Site_.kinds[i][v]
Broken(vs) == \E i \in T : KindOf(i, vs[i]) = "bad"

Mark(i, v) == Names[i] \o ":" \o ToString(v)
Helped(vs) == IF vs[4] = 0 THEN <<"error">>
              ELSE IF KindOf(4, vs[4]) = "fails" THEN <<"error">>
              ELSE IF KindOf(4, vs[4]) = "blank" THEN <<>> ELSE <<Mark(4, vs[4])>>

\* what is shown: one mark for each template used
RECURSIVE Shows(_, _)
Shows(vs, i) ==
  LET k == KindOf(i, vs[i])
      in == IF i = 3 THEN <<>> ELSE Shows(vs, i + 1)
  IN CASE k = "none" -> IF i = 2 THEN <<"error">> ELSE <<Mark(i, 0)>> \o in
       [] k = "good" -> <<Mark(i, vs[i])>> \o in
       [] k = "uses" -> <<Mark(i, vs[i])>> \o Helped(vs) \o in
       [] k = "blank" -> <<>>
       [] k = "fails" -> <<"error">>
Shown(vs) == LET s == Shows(vs, 1) IN
             IF \E j \in 1..Len(s) : s[j] = "error" THEN <<"error">> ELSE s

\* what has to come of a use
Wanted == IF Broken(disk) THEN [ok |-> FALSE, shown |-> <<>>] ELSE [ok |-> TRUE, shown |-> Shown(disk)]

Init == /\ disk = [i \in T |-> IF i = 2 THEN 1 ELSE 0]
        /\ mtime = [i \in T |-> Own(i, 1)]
        /\ clock = 1000
        /\ times = [i \in T |-> 0]
        /\ loaded = [i \in T |-> 0]
        /\ answer = [ok |-> TRUE, shown |-> <<>>]
        /\ hist = <<>>

Edit ==
  /\ hist # <<>> /\ Edits < Site_.rounds
  /\ \E n \in 1..Len(Ops) :
       LET o == Ops[n] IN
       /\ disk' = [disk EXCEPT ![o.f] = o.v]
       /\ mtime' = [mtime EXCEPT ![o.f] = IF o.how = "now" THEN clock + 1 ELSE Own(o.f, o.v)]
       /\ hist' = Append(hist, [op |-> "edit", f |-> o.f, v |-> o.v, how |-> o.how])
  /\ clock' = clock + 1
  /\ UNCHANGED <<times, loaded, answer>>

Seen == [i \in T |-> IF disk[i] = 0 THEN 0 ELSE mtime[i]]
Changed ==
  IF Site_.newer THEN \E i \in T : Seen[i] > times[i]
  ELSE IF Site_.forgetful THEN \E i \in T : Seen[i] # 0 /\ Seen[i] # times[i]
  ELSE Seen # times

\* the templates are loaded if they have changed, and used
Use ==
  /\ LastOp \in {"", "edit"}
  /\ IF ~Changed
     THEN /\ answer' = [ok |-> TRUE, shown |-> Shown(loaded)]
          /\ UNCHANGED <<times, loaded>>
     ELSE IF Broken(disk)
     THEN /\ answer' = [ok |-> FALSE, shown |-> <<>>]
          /\ times' = IF Site_.sloppy THEN Seen ELSE times
          /\ UNCHANGED loaded
     ELSE /\ loaded' = disk
          /\ times' = Seen
          /\ answer' = [ok |-> TRUE, shown |-> Shown(disk)]
  /\ hist' = Append(hist, [op |-> "use", ok |-> Wanted.ok, shown |-> Wanted.shown, before |-> Shown(loaded)])
  /\ UNCHANGED <<disk, mtime, clock>>

RECURSIVE Name(_)
Name(h) == IF h = <<>> THEN ""
           ELSE (IF h[1].op = "use" THEN "u" ELSE ToString(h[1].f) \o ToString(h[1].v) \o SubSeq(h[1].how, 1, 1)) \o Name(Tail(h))
Publish ==
  /\ Edits = Site_.rounds /\ LastOp = "use"
  /\ JsonSerialize(OutDir \o "/trace-" \o Name(hist) \o ".json", hist)
  /\ hist' = Append(hist, [op |-> "end"])
  /\ UNCHANGED <<disk, mtime, clock, times, loaded, answer>>

Next == LastOp # "end" /\ (Edit \/ Use \/ Publish)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C24: what is used is what is on disk
AlwaysThoseOnDisk ==
  LastOp = "use" => LET h == hist[Len(hist)] IN answer = [ok |-> h.ok, shown |-> h.shown]
\* a set is in use only as a whole
Whole == Seen = times => loaded = disk \/ Site_.sloppy
=============================================================================
