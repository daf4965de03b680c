------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Requests handled at the same time, while files change.  A request reads *)
(* the main file, stops at gate "a" of its text, reads the included file,  *)
(* stops at gate "b" of its text, then takes the lock of the server, loads *)
(* the templates, stops at gate "c" while its page is rendered, and        *)
(* answers.  Each complete behaviour is published, as a schedule to be     *)
(* followed by the real server, whose gates are functions of a plugin.     *)
(*                                                                         *)
(* The site comes from the file named by SITE:                             *)
(*   kinds     for each file, and for the templates (the last), the kind   *)
(*             of each version: "good", "broken" (fails when it is read),  *)
(*             "late" (fails after the gate), "plain" (good, but the page  *)
(*             has no gate "c")                                            *)
(*   ops       edits [f, v, how]; f = 0 stands for the templates           *)
(*   edits     number of edits                                             *)
(*   requests  number of requests                                          *)
(*   unlocked  mistaken design: the lock is not released on failure        *)
(*   early     mistaken design: what is answered is what was there when    *)
(*             another request started                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Site_ == ndJsonDeserialize(IOEnv.SITE)[1]
OutDir == IOEnv.OUT
R == 1..Site_.requests
F == 0..2                \* the templates, the main file, the included file
Ops == Site_.ops
KindOf(i, v) == IF v = 0 THEN "broken" ELSE Site_.kinds[IF i = 0 THEN 3 ELSE i][v]

VARIABLES disk,   \* version of each file
          pc,     \* of each request: "new", "a", "b", "c", "done"
          seen,   \* what each request has read
          win,    \* what each file has been since the request started
          lock,   \* request which has the lock, or 0
          edits,  \* number of edits
          hist
vars == <<disk, pc, seen, win, lock, edits, hist>>

Init == /\ disk = [i \in F |-> 1]
        /\ pc = [r \in R |-> "new"]
        /\ seen = [r \in R |-> [i \in F |-> {}]]
        /\ win = [r \in R |-> [i \in F |-> {}]]
        /\ lock = 0 /\ edits = 0 /\ hist = <<>>

Active(r) == pc[r] \notin {"new", "done"}
AllDone == \A r \in R : pc[r] = "done"
Reads(r, i) == seen' = [seen EXCEPT ![r][i] = @ \cup {disk[i]}]
Goes(r, to) == /\ pc' = [pc EXCEPT ![r] = to]
               /\ hist' = Append(hist, [op |-> "go", r |-> r])

\* requests are the same, so that one may start before the next
Start(r) ==
  /\ pc[r] = "new"
  /\ \A q \in R : q < r => pc[q] # "new"
  /\ win' = [win EXCEPT ![r] = [i \in F |-> {disk[i]}]]
  /\ Reads(r, 1)
  /\ Goes(r, IF KindOf(1, disk[1]) = "broken" THEN "done" ELSE "a")
  /\ UNCHANGED <<disk, lock, edits>>

FromA(r) ==
  /\ pc[r] = "a"
  /\ Reads(r, 2)
  /\ Goes(r, IF KindOf(2, disk[2]) = "broken" THEN "done" ELSE "b")
  /\ UNCHANGED <<disk, lock, win, edits>>

\* the version of the included file which a request has seen
SubOf(r) == CHOOSE v \in seen[r][2] : TRUE
FromB(r) ==
  /\ pc[r] = "b"
  /\ IF KindOf(2, SubOf(r)) = "late"
     THEN Goes(r, "done") /\ UNCHANGED <<lock, seen>>
     ELSE /\ lock = 0
          /\ Reads(r, 0)
          /\ IF KindOf(0, disk[0]) = "broken"
             THEN Goes(r, "done") /\ lock' = IF Site_.unlocked THEN r ELSE 0
             ELSE Goes(r, "c") /\ lock' = r
  /\ UNCHANGED <<disk, win, edits>>

FromC(r) ==
  /\ pc[r] = "c"
  /\ lock' = 0
  /\ Goes(r, "done")
  /\ UNCHANGED <<disk, seen, win, edits>>

Edit ==
  /\ edits < Site_.edits
  /\ \E r \in R : Active(r)
  /\ \E n \in 1..Len(Ops) :
       LET o == Ops[n] IN
       /\ disk[o.f] # o.v
       /\ disk' = [disk EXCEPT ![o.f] = o.v]
       /\ win' = [r \in R |-> IF Active(r) THEN [win[r] EXCEPT ![o.f] = @ \cup {o.v}] ELSE win[r]]
       /\ hist' = Append(hist, [op |-> "edit", f |-> o.f, v |-> o.v, how |-> o.how])
  /\ edits' = edits + 1
  /\ UNCHANGED <<pc, seen, lock>>

RECURSIVE Name(_)
Name(h) == IF h = <<>> THEN ""
           ELSE (IF h[1].op = "go" THEN ToString(h[1].r) ELSE "e" \o ToString(h[1].f) \o ToString(h[1].v) \o SubSeq(h[1].how, 1, 1)) \o Name(Tail(h))
Published == hist # <<>> /\ hist[Len(hist)].op = "end"
Publish ==
  /\ AllDone /\ ~Published
  /\ JsonSerialize(OutDir \o "/trace-" \o Name(hist) \o ".json", hist)
  /\ hist' = Append(hist, [op |-> "end"])
  /\ UNCHANGED <<disk, pc, seen, win, lock, edits>>

Step(r) == Start(r) \/ FromA(r) \/ FromB(r) \/ FromC(r)
Next == Edit \/ Publish \/ \E r \in R : Step(r)
Spec == Init /\ [][Next]_vars /\ \A r \in R : WF_vars(Step(r)) /\ SF_vars(FromB(r))

-----------------------------------------------------------------------------
\* C25: what a request has seen was there between its start and its end
Windows == \A r \in R, i \in F : seen[r][i] \subseteq win[r][i]
\* a file is read once by each request: the document is that of one moment for
\* each file
Once == \A r \in R, i \in F : Cardinality(seen[r][i]) <= 1
\* nothing is blocked: somebody can go on, unless all are done
NotStuck == AllDone \/ \E r \in R : ENABLED Step(r)
\* the lock is held only while a page is rendered
LockHeld == \A r \in R : lock = r => pc[r] = "c"
\* each request ends
Ends == \A r \in R : (pc[r] # "new") ~> (pc[r] = "done")
=============================================================================
