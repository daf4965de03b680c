------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* Histories of edits and requests, one after another.  Files have a       *)
(* modification time, and the server keeps what it parsed with the time it *)
(* saw; templates are kept in the same way.                                *)
(*                                                                         *)
(* An edit gives a file one of its contents, with a modification time that *)
(* is "now" (later than all before), or "kept": that of the content, as    *)
(* when a file is moved to the place of another, which may be earlier; or  *)
(* it removes the file.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Site_ == ndJsonDeserialize(IOEnv.SITE)[1]
OutDir == IOEnv.OUT
NF == Len(Site_.files)

Rounds == Site_.rounds   \* number of edits
Ops == Site_.ops         \* sequence of [f, v, how]; f = 0 stands for the templates
Newer == Site_.newer     \* TRUE models a server which reloads only what is newer

VARIABLES disk,    \* state of the disk, as in Site.tla
          mtime,   \* modification times: of files, and of the templates (0)
          clock,
          cache,   \* what the server keeps of each file: version and time
          kept,    \* the same of the templates
          stale,   \* whether an answer was not that for the disk
          hist

vars == <<disk, mtime, clock, cache, kept, stale, hist>>
View == hist   \* everything else follows from it

\* the time that belongs to a content, before all others
Own(i, v) == 100 * i + v

Init == /\ disk = [f |-> [i \in 1..NF |-> 1], t |-> 1]
        /\ mtime = [i \in 0..NF |-> Own(i, 1)]
        /\ clock = 1000
        /\ cache = [i \in 1..NF |-> [v |-> 0, t |-> -1]]
        /\ kept = [v |-> 1, t |-> Own(0, 1)]
        /\ stale = FALSE
        /\ hist = <<>>

LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Edits == Len(SelectSeq(hist, LAMBDA h : h.op = "edit"))

Edit ==
  /\ hist # <<>> /\ Edits < Rounds
  /\ \E i \in 1..Len(Ops) :
       LET o == Ops[i] IN
       /\ IF o.f = 0
          THEN disk' = [disk EXCEPT !.t = o.v]
          ELSE disk' = [disk EXCEPT !.f[o.f] = o.v]
       /\ mtime' = [mtime EXCEPT ![o.f] = IF o.how = "now" THEN clock + 1 ELSE Own(o.f, o.v)]
       /\ clock' = clock + 1
       /\ hist' = Append(hist, [op |-> "edit", f |-> o.f, v |-> o.v, how |-> o.how])
  /\ UNCHANGED <<cache, kept, stale>>

\* what the server has of a file
Current(i) == IF Newer THEN mtime[i] <= cache[i].t ELSE mtime[i] = cache[i].t
Seen(i) == IF disk.f[i] = 0 THEN 0 ELSE IF Current(i) THEN cache[i].v ELSE disk.f[i]

SeenTemplates ==
  IF IF Newer THEN mtime[0] <= kept.t ELSE mtime[0] = kept.t THEN kept.v ELSE disk.t

Key(d) == ToString(d.t) \o FoldLeft(LAMBDA s, i : s \o "-" \o ToString(d.f[i]), "", [i \in 1..NF |-> i])

\* All URLs are requested.  Any of the files may be read, and what is read may
\* be kept.
Request ==
  /\ LastOp \in {"", "edit"}
  /\ LET f == [i \in 1..NF |-> Seen(i)]
         t == SeenTemplates
     IN /\ cache' = [i \in 1..NF |-> IF disk.f[i] # 0 THEN [v |-> f[i], t |-> mtime[i]] ELSE cache[i]]
        /\ kept' = [v |-> t, t |-> mtime[0]]
        /\ stale' = ([f |-> f, t |-> t] # disk)
        /\ hist' = Append(hist, [op |-> "request", key |-> Key(disk)])
  /\ UNCHANGED <<disk, mtime, clock>>

Complete == Edits = Rounds /\ LastOp = "request"

RECURSIVE Name(_)
Name(h) == IF h = <<>> THEN ""
           ELSE (IF h[1].op = "request" THEN "r" ELSE ToString(h[1].f) \o ToString(h[1].v) \o SubSeq(h[1].how, 1, 1)) \o Name(Tail(h))
Publish ==
  /\ Complete
  /\ JsonSerialize(OutDir \o "/trace-" \o Name(hist) \o ".json", hist)
  /\ hist' = Append(hist, [op |-> "end"])
  /\ UNCHANGED <<disk, mtime, clock, cache, kept, stale>>

Next == LastOp # "end" /\ (Edit \/ Request \/ Publish)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C23, C24, C26: every answer is that for the files on disk
NeverStale == ~stale
\* what is kept is right as long as the times agree
CacheRight == \A i \in 1..NF : (disk.f[i] # 0 /\ mtime[i] = cache[i].t) => cache[i].v = disk.f[i]
=============================================================================
