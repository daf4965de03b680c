-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* Deferred content, used by several threads at the same time.  It is      *)
(* computed by the first which needs it, while others wait.                *)
(*                                                                         *)
(* The scenarios come from the file named by SITE, one per line:           *)
(*   defs   what each item computes, [k, of]:                              *)
(*            "text"   a text                                              *)
(*            "fail"   an error                                            *)
(*            "uses"   what it computes with the result of item `of`       *)
(*            "holds"  content within which item `of` is shown             *)
(*   progs  what each thread does in turn, [how, l]: "force" computes      *)
(*          item l, "html" and "text" render it                            *)
(*   hasty  mistaken design: an item is marked as computed beforehand      *)
(*   twice  mistaken design: nobody waits, so that it is computed again    *)
(*   retry  mistaken design: after an error it is computed again           *)
(*                                                                         *)
(* A thread stops at gates, where the schedule decides who goes on: gate 1 *)
(* when a computation starts, gate 2 before it ends, gate 3 in rendering   *)
(* between content and the deferred content within it.  Each complete      *)
(* behaviour is published as a schedule, to be followed by real threads.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Scenarios == ndJsonDeserialize(IOEnv.SITE)
OutDir == IOEnv.OUT

VARIABLES sc,     \* number of the scenario
          def, prog, \* of the scenario
          st,     \* of each item: "new", "busy", "done"
          count,  \* how often each was computed
          at,     \* of each thread: calls in progress, <<item, where>>
          pc,     \* of each thread: number of things done
          res,    \* of each thread: what came of each of them
          first,  \* of each item: what came of its first computation
          hist
vars == <<sc, def, prog, st, count, at, pc, res, first, hist>>
\* what matters for the future
View == <<sc, st, count, at, pc, res, first>>

S == Scenarios[sc]
Items == 1..Len(def)
Threads == 1..Len(prog)

Init == /\ sc \in 1..Len(Scenarios)
        /\ def = S.defs /\ prog = S.progs
        /\ st = [l \in 1..Len(S.defs) |-> "new"]
        /\ count = [l \in 1..Len(S.defs) |-> 0]
        /\ first = [l \in 1..Len(S.defs) |-> ""]
        /\ at = [t \in 1..Len(S.progs) |-> <<>>]
        /\ pc = [t \in 1..Len(S.progs) |-> 0]
        /\ res = [t \in 1..Len(S.progs) |-> <<>>]
        /\ hist = <<>>

\* what an item computes
RECURSIVE Value(_)
Value(l) ==
  LET d == def[l] IN
  CASE d.k = "text" -> [ok |-> TRUE, c |-> "t" \o ToString(l)]
    [] d.k = "fail" -> [ok |-> FALSE, c |-> "e" \o ToString(l)]
    [] d.k = "uses" -> LET v == Value(d.of) IN
                       IF v.ok THEN [ok |-> TRUE, c |-> "u" \o ToString(l) \o "(" \o v.c \o ")"] ELSE v
    [] d.k = "holds" -> [ok |-> TRUE, c |-> "h" \o ToString(l) \o "[" \o ToString(d.of) \o "]"]

\* the item which is shown within the result of l, or 0
RECURSIVE Within(_)
Within(l) == CASE def[l].k = "holds" -> def[l].of
               [] def[l].k = "uses" -> Within(def[l].of)
               [] OTHER -> 0
\* how an item looks
RECURSIVE Shown(_)
Shown(l) ==
  LET d == def[l] IN
  CASE d.k = "holds" -> LET v == Shown(d.of) IN
                        IF v.ok THEN [ok |-> TRUE, c |-> "h" \o ToString(l) \o "<" \o v.c \o ">"] ELSE v
    [] d.k = "uses" -> LET v == Shown(d.of) IN
                       IF v.ok THEN [ok |-> TRUE, c |-> "u" \o ToString(l) \o "(" \o v.c \o ")"] ELSE v
    [] OTHER -> Value(l)

\* A state of the threads and items, [st, count, at, pc, res, first], is changed by
\* each of the following.

\* the call of thread t for item l begins
Arrive(s, t, l) ==
  IF s.st[l] = "new" \/ (S.twice /\ s.st[l] = "busy")
     \/ (S.retry /\ s.st[l] = "done" /\ ~Value(l).ok)
  THEN [s EXCEPT !.st[l] = IF S.hasty THEN "done" ELSE "busy", !.count[l] = @ + 1, !.at[t] = Append(@, <<l, "1">>)]
  ELSE [s EXCEPT !.at[t] = Append(@, <<l, "wait">>)]

Top(s, t) == s.at[t][Len(s.at[t])]
Pop(s, t) == [s EXCEPT !.at[t] = SubSeq(@, 1, Len(@) - 1)]
Ended(s, t, v) == [s EXCEPT !.at[t] = <<>>, !.pc[t] = @ + 1, !.res[t] = Append(@, v)]
How(s, t) == prog[t][s.pc[t] + 1].how
Item(s, t) == prog[t][s.pc[t] + 1].l

\* the result of item l is returned to thread t, whose last call it is
Return(s, t, l, ready) ==
  LET p == Pop(s, t) IN
  IF p.at[t] # <<>> /\ Top(p, t)[2] = "1"
  THEN [p EXCEPT !.at[t][Len(p.at[t])][2] = "2"]
  ELSE IF How(s, t) = "force" THEN Ended(s, t, IF ready THEN Value(l) ELSE [ok |-> TRUE, c |-> "nothing"])
  ELSE IF Value(l).ok /\ Within(l) # 0
  THEN [p EXCEPT !.at[t] = <<<<Within(l), "3">>>>]
  ELSE Ended(s, t, IF ready THEN Shown(Item(s, t)) ELSE [ok |-> TRUE, c |-> "nothing"])

\* those which need not wait get the result
RECURSIVE Wake(_, _)
Wake(s, ts) ==
  IF ts = {} THEN s
  ELSE LET t == CHOOSE x \in ts : TRUE
           wait == s.at[t] # <<>> /\ Top(s, t)[2] = "wait" /\ s.st[Top(s, t)[1]] = "done"
       IN Wake(IF wait THEN Return(s, t, Top(s, t)[1], s.first[Top(s, t)[1]] # "") ELSE s, ts \ {t})

State == [st |-> st, count |-> count, at |-> at, pc |-> pc, res |-> res, first |-> first]
WhereIs(s, t) == IF s.at[t] = <<>> THEN "idle" \o ToString(s.pc[t])
                 ELSE Top(s, t)[2] \o (IF Top(s, t)[2] = "wait" THEN "" ELSE "-" \o ToString(Top(s, t)[1]))
Becomes(s1, op, t) ==
  LET s == Wake(s1, Threads) IN
  /\ st' = s.st /\ count' = s.count /\ at' = s.at /\ pc' = s.pc /\ res' = s.res /\ first' = s.first
  /\ hist' = Append(hist, [op |-> op, t |-> t, now |-> [x \in Threads |-> WhereIs(s, x)]])
  /\ UNCHANGED <<sc, def, prog>>

\* a thread begins to do the next thing
Call(t) ==
  /\ at[t] = <<>> /\ pc[t] < Len(prog[t])
  /\ Becomes(Arrive(State, t, prog[t][pc[t] + 1].l), "call", t)

\* a thread which stopped at a gate goes on
Go(t) ==
  /\ at[t] # <<>>
  /\ LET f == Top(State, t)
         l == f[1]
         done == Return([State EXCEPT !.st[l] = "done", !.first[l] = IF @ = "" THEN "x" ELSE @], t, l, TRUE)
     IN CASE f[2] = "1" -> IF def[l].k = "uses" THEN Becomes(Arrive(State, t, def[l].of), "go", t)
                           ELSE Becomes(done, "go", t)
          [] f[2] = "2" -> Becomes(done, "go", t)
          [] f[2] = "3" -> Becomes(Arrive(Pop(State, t), t, l), "go", t)
          [] OTHER -> FALSE

AllDone == \A t \in Threads : at[t] = <<>> /\ pc[t] = Len(prog[t])
Published == hist # <<>> /\ hist[Len(hist)].op = "end"
RECURSIVE Name(_)
Name(h) == IF h = <<>> THEN "" ELSE (IF h[1].op = "call" THEN "c" ELSE "g") \o ToString(h[1].t) \o Name(Tail(h))
Publish ==
  /\ AllDone /\ ~Published
  /\ JsonSerialize(OutDir \o "/trace-" \o ToString(sc) \o "-" \o Name(hist) \o ".json",
                   [n |-> sc, steps |-> hist, res |-> res, count |-> count,
                    values |-> [l \in Items |-> Value(l)], shown |-> [l \in Items |-> Shown(l)]])
  /\ hist' = Append(hist, [op |-> "end"])
  /\ UNCHANGED <<sc, def, prog, st, count, at, pc, res, first>>

Step(t) == Call(t) \/ Go(t)
Next == Publish \/ \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in 1..4 : WF_vars(t \in Threads /\ Step(t))

-----------------------------------------------------------------------------
\* C29: each item is computed at most once, and only when it is needed
AtMostOnce == \A l \in Items : count[l] <= 1
Needed ==
  LET start == UNION {{prog[t][i].l : i \in 1..Len(prog[t])} : t \in Threads}
      RECURSIVE all(_)
      all(s) == LET more == s \cup {def[l].of : l \in {x \in s : def[x].k \in {"uses", "holds"}}} IN
                IF more = s THEN s ELSE all(more)
  IN \A l \in Items : count[l] > 0 => l \in all(start)
\* all get the same
SameForAll ==
  \A t, u \in Threads : \A i \in 1..Len(res[t]), j \in 1..Len(res[u]) :
     prog[t][i] = prog[u][j] => res[t][i] = res[u][j]
\* ... which is what was computed
Computed == \A t \in Threads : \A i \in 1..Len(res[t]) :
              res[t][i] = IF prog[t][i].how = "force" THEN Value(prog[t][i].l) ELSE Shown(prog[t][i].l)
\* somebody can always go on
NotStuck == AllDone \/ \E t \in Threads : ENABLED Step(t)
Ends == <>AllDone
=============================================================================
