------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The cache of one file, step by step: a reader looks at the modification *)
(* time, looks into the cache, opens the file, reads it, and keeps what it *)
(* has read.  Meanwhile the file is replaced by other files, which have a  *)
(* content and a time of their own, some more than once.  A file stays     *)
(* what it is once it is open.                                             *)
(*   Design  "handle": what is read is kept with the time of the file that *)
(*           was opened;  "path": with the time that was seen before       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Readers, Versions, MaxEdits, Design

VARIABLES disk,    \* version: its modification time is the same number
          cache,   \* [v, t], t = 0 if there is none
          pc, time, open, got, win, edits, uses
vars == <<disk, cache, pc, time, open, got, win, edits, uses>>

Init == /\ disk = 1
        /\ cache = [v |-> 0, t |-> 0]
        /\ pc = [r \in Readers |-> "idle"]
        /\ time = [r \in Readers |-> 0]
        /\ open = [r \in Readers |-> 0]
        /\ got = [r \in Readers |-> 0]
        /\ win = [r \in Readers |-> {}]
        /\ edits = 0 /\ uses = [r \in Readers |-> 0]

Replace(v) ==
  /\ edits < MaxEdits /\ disk # v
  /\ disk' = v /\ edits' = edits + 1
  /\ win' = [r \in Readers |-> IF pc[r] = "idle" THEN win[r] ELSE win[r] \cup {v}]
  /\ UNCHANGED <<cache, pc, time, open, got, uses>>

Stat(r) ==
  /\ pc[r] = "idle" /\ uses[r] < 2
  /\ uses' = [uses EXCEPT ![r] = @ + 1]
  /\ time' = [time EXCEPT ![r] = disk]
  /\ win' = [win EXCEPT ![r] = {disk}]
  /\ pc' = [pc EXCEPT ![r] = "stat"]
  /\ UNCHANGED <<disk, cache, open, got, edits>>

LookUp(r) ==
  /\ pc[r] = "stat"
  /\ IF cache.t = time[r]
     THEN /\ got' = [got EXCEPT ![r] = cache.v]
          /\ pc' = [pc EXCEPT ![r] = "got"]
     ELSE /\ pc' = [pc EXCEPT ![r] = "miss"]
          /\ UNCHANGED got
  /\ UNCHANGED <<disk, cache, time, open, win, edits, uses>>

Open(r) ==
  /\ pc[r] = "miss"
  /\ open' = [open EXCEPT ![r] = disk]
  /\ time' = IF Design = "handle" THEN [time EXCEPT ![r] = disk] ELSE time
  /\ pc' = [pc EXCEPT ![r] = "open"]
  /\ UNCHANGED <<disk, cache, got, win, edits, uses>>

Read(r) ==
  /\ pc[r] = "open"
  /\ got' = [got EXCEPT ![r] = open[r]]
  /\ pc' = [pc EXCEPT ![r] = "got"]
  /\ UNCHANGED <<disk, cache, time, open, win, edits, uses>>

Keep(r) ==
  /\ pc[r] = "got"
  /\ cache' = [v |-> got[r], t |-> time[r]]
  /\ pc' = [pc EXCEPT ![r] = "kept"]
  /\ UNCHANGED <<disk, time, open, got, win, edits, uses>>

Answer(r) ==
  /\ pc[r] = "kept"
  /\ pc' = [pc EXCEPT ![r] = "idle"]
  /\ UNCHANGED <<disk, cache, time, open, got, win, edits, uses>>

Next == \/ \E v \in Versions : Replace(v)
        \/ \E r \in Readers : Stat(r) \/ LookUp(r) \/ Open(r) \/ Read(r) \/ Keep(r) \/ Answer(r)
Spec == Init /\ [][Next]_vars

\* what is used was there between start and end
Fresh == \A r \in Readers : pc[r] \in {"got", "kept"} => got[r] \in win[r]
\* what is kept for a time is what the file with this time has
CacheRight == cache.t # 0 => cache.v = cache.t
=============================================================================
