------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* What was recorded of a real server, checked against what it may do: the *)
(* answer to a request has to be the one for some state that each file had *)
(* between start and end of the request.  TRACES has one record per line:  *)
(*   init    version of each file at first, the templates last             *)
(*   sets    sets of states of the files                                   *)
(*   events  "begin", "edited" [f, v]: an edit begins and ends (f = last   *)
(*           stands for the templates)                                     *)
(*           "start", "end" [r, may]: a request; may is the number of the  *)
(*           set of those states which its answer fits                     *)
(* The verdict on each goes to the directory OUT.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
OutDir == IOEnv.OUT
Workers == 8

VARIABLES n, trace, i,
          may,   \* for each file, which versions it may have now
          win,   \* for each request in progress, which versions each file may have had
          bad    \* numbers of events which cannot be
vars == <<n, trace, i, may, win, bad>>
View == <<n, i>>

Begin(k) ==
  /\ n = k /\ trace = Traces[k] /\ i = 1
  /\ may = [f \in 1..Len(Traces[k].init) |-> {Traces[k].init[f]}]
  /\ win = [r \in {} |-> <<>>]
  /\ bad = <<>>
Init == \E k \in 1..(IF Len(Traces) < Workers THEN Len(Traces) ELSE Workers) : Begin(k)

Files == DOMAIN may
Event == trace.events[i]
More == i <= Len(trace.events)
Advance == i' = i + 1 /\ UNCHANGED <<n, trace>>

EditBegins ==
  /\ More /\ Event.e = "begin"
  /\ may' = [may EXCEPT ![Event.f] = @ \cup {Event.v}]
  /\ win' = [r \in DOMAIN win |-> [win[r] EXCEPT ![Event.f] = @ \cup {Event.v}]]
  /\ Advance /\ UNCHANGED bad
EditEnds ==
  /\ More /\ Event.e = "edited"
  /\ may' = [may EXCEPT ![Event.f] = {Event.v}]
  /\ Advance /\ UNCHANGED <<win, bad>>
RequestStarts ==
  /\ More /\ Event.e = "start"
  /\ win' = [r \in DOMAIN win \cup {Event.r} |-> IF r = Event.r THEN may ELSE win[r]]
  /\ Advance /\ UNCHANGED <<may, bad>>
RequestEnds ==
  /\ More /\ Event.e = "end"
  /\ LET w == win[Event.r]
         set == trace.sets[Event.may]
         fits == \E k \in 1..Len(set) : \A f \in Files : set[k][f] \in w[f]
     IN bad' = IF fits THEN bad ELSE Append(bad, i)
  /\ win' = [r \in DOMAIN win \ {Event.r} |-> win[r]]
  /\ Advance /\ UNCHANGED may

Continue ==
  /\ ~More
  /\ JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json", [bad |-> bad, open |-> DOMAIN win])
  /\ n + Workers <= Len(Traces)
  /\ LET t == Traces[n + Workers] IN
     /\ trace' = t
     /\ may' = [f \in 1..Len(t.init) |-> {t.init[f]}]
  /\ n' = n + Workers /\ i' = 1 /\ win' = [r \in {} |-> <<>>] /\ bad' = <<>>

Next == EditBegins \/ EditEnds \/ RequestStarts \/ RequestEnds \/ Continue
Spec == Init /\ [][Next]_vars

\* an edit between start and end only adds to what a request may see
Grows == [][\A r \in DOMAIN win \cap DOMAIN win' : \A f \in Files : n' = n => win[r][f] \subseteq win'[r][f]]_vars
=============================================================================
