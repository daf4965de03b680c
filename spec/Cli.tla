--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command: what its options do, with plugins compiled in or given by  *)
(* --plugin, in which case the command builds another one in a temporary   *)
(* directory and runs it.  Several runs follow each other, with the same   *)
(* output directories.                                                     *)
(*                                                                         *)
(* The cases come from the file named by CASES, one per line:              *)
(*   files    source files [path, src]                                     *)
(*   disk     files in output directories beforehand [dir, name, text]     *)
(*   hasty    mistaken design: nothing is removed after a failure          *)
(*   runs     what is run, in turn:                                        *)
(*     kind     "build", "serve", or an option alone: "help", "version",   *)
(*              "noin" (no input), "flag" (an unknown option)              *)
(*     in, out, tag, section, index, ext, tmpl, broken, plugins: options.  *)
(*     out      "" (none), or a directory, "blocked" if it cannot be one   *)
(*     tmpl     "", the name of a set, "gone" if it does not exist, "bad"  *)
(*              if a template in it is broken                              *)
(*     cpu      CPU profile: "", "ok", "blocked"                           *)
(*     builtin  names of the plugins which the command was built with      *)
(*     plugins  packages: "tp" and "tq" register plugins, "talk" prints    *)
(*              something, "exit", "crash", "killed" end the program,      *)
(*              "bad" does not compile, "missing" is not there                        *)
(*     interrupt  whether a signal arrives during the build of the program *)
(*                with the plugins (one always ends the server)            *)
(*     urls     what is requested from the server                          *)
(***************************************************************************)
EXTENDS Answers, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
OutDir == IOEnv.OUT
Workers == 8

VARIABLES n, doc, \* number of the case, and the case
          r,      \* number of the run
          stage,
          files,  \* parse of each file
          known,  \* plugins which the running program has
          temp,   \* files in the temporary directory
          disk,   \* files in the output directories [dir, name, k, ...]
          st, G, site, \* evaluation, environment for rendering, pages
          res,    \* what the run has come to
          outs    \* what became of the runs so far
vars == <<n, doc, r, stage, files, known, temp, disk, st, G, site, res, outs>>
View == <<n, r, stage>>

Run == doc.runs[r]
Paths == {doc.files[i].path : i \in 1..Len(doc.files)}
SourceOf(p) == doc.files[CHOOSE i \in 1..Len(doc.files) : doc.files[i].path = p].src
Sources == [p \in Paths |-> SourceOf(p)]

None == <<>>
\* exit status: -1 is any but 0, -2 is any
NewRes == [exit |-> 0, stdout |-> [k |-> "none"], err |-> NoErr, talk |-> FALSE, profile |-> FALSE, answers |-> <<>>]
Fresh == known' = {} /\ st' = None /\ G' = None /\ site' = None /\ res' = NewRes

InitialDisk(c) == [i \in 1..Len(c.disk) |-> c.disk[i] @@ [k |-> "old"]]

Init == /\ n \in 1..(IF Len(Cases) < Workers THEN Len(Cases) ELSE Workers)
        /\ doc = Cases[n] /\ r = 1 /\ stage = "new" /\ files = None /\ known = {} /\ temp = {}
        /\ disk = InitialDisk(doc) /\ st = None /\ G = None /\ site = None /\ res = NewRes /\ outs = <<>>

ParseAll ==
  /\ stage = "new"
  /\ files' = [p \in Paths |-> Syn!Parse(SourceOf(p))]
  /\ stage' = "start"
  /\ UNCHANGED <<n, doc, r, known, temp, disk, st, G, site, res, outs>>

-----------------------------------------------------------------------------
\* options, and the build of a program with plugins

PluginsOf(ps) == ToSet(ps) \cap {"tp", "tq"}

Ended(x, s) == res' = x /\ stage' = s
Fails(e) == [res EXCEPT !.exit = 1, !.err = e]

Start ==
  /\ stage = "start"
  /\ CASE Run.kind = "help" -> Ended([res EXCEPT !.stdout.k = "help"], "over") /\ UNCHANGED <<known, temp>>
       [] Run.kind = "version" -> Ended([res EXCEPT !.stdout.k = "version"], "over") /\ UNCHANGED <<known, temp>>
       [] Run.kind = "noin" -> Ended([Fails(Plain("required flag")) EXCEPT !.stdout.k = "any"], "over") /\ UNCHANGED <<known, temp>>
       [] Run.kind = "flag" -> Ended([Fails(Plain("unknown flag")) EXCEPT !.stdout.k = "any"], "over") /\ UNCHANGED <<known, temp>>
       [] Run.plugins = <<>> -> known' = {"baselit"} \cup ToSet(Run.builtin) /\ stage' = "ready" /\ UNCHANGED <<temp, res>>
       [] OTHER -> temp' = {"main.go"} /\ stage' = "compile" /\ UNCHANGED <<known, res>>
  /\ UNCHANGED <<n, doc, r, files, disk, st, G, site, outs>>

Compile ==
  /\ stage = "compile"
  /\ IF Run.interrupt
     THEN Ended([res EXCEPT !.exit = -1, !.stdout.k = "any"], "exited") /\ UNCHANGED temp
     ELSE IF {"bad", "missing"} \cap ToSet(Run.plugins) # {}
     THEN Ended(Fails(Plain("build failed")), "exited") /\ UNCHANGED temp
     ELSE temp' = temp \cup {"main"} /\ stage' = "exec" /\ UNCHANGED res
  /\ UNCHANGED <<n, doc, r, files, known, disk, st, G, site, outs>>

\* the program which was built runs
Exec ==
  /\ stage = "exec"
  /\ CASE "exit" \in ToSet(Run.plugins) -> Ended([res EXCEPT !.exit = 7], "exited") /\ UNCHANGED known
       [] "crash" \in ToSet(Run.plugins) -> Ended([Fails(Plain("crashed")) EXCEPT !.exit = 2], "exited") /\ UNCHANGED known
       \* by a signal: any status other than that of success
       [] "killed" \in ToSet(Run.plugins) -> Ended([res EXCEPT !.exit = -1, !.stdout.k = "any"], "exited") /\ UNCHANGED known
       [] OTHER -> /\ known' = {"baselit"} \cup PluginsOf(Run.plugins)
                   /\ Ended([res EXCEPT !.talk = "talk" \in ToSet(Run.plugins)], "ready")
  /\ UNCHANGED <<n, doc, r, files, temp, disk, st, G, site, outs>>

-----------------------------------------------------------------------------
\* the actual run

Ready ==
  /\ stage = "ready"
  /\ LET x == [res EXCEPT !.profile = Run.cpu = "ok"] IN
     IF Run.cpu = "blocked" THEN Ended(Fails(Plain("not a directory")), "exited")
     ELSE IF Run.kind = "serve" THEN Ended(x, "serve")
     ELSE IF Run.tmpl = "bad" THEN Ended([x EXCEPT !.exit = 1, !.err = Plain("bold.tmpl")], "exited")
     ELSE Ended(x, "load")
  /\ UNCHANGED <<n, doc, r, files, known, temp, disk, st, G, site, outs>>

WithSection == Run.section # "" /\ Run.tag = ""

Evaluate ==
  /\ stage = "load"
  /\ LET main == LoadIn(files, InitWith(Run.broken, known), 0, Run.in) IN
     IF Failed(main.st) \/ ~WithSection
     THEN /\ st' = main.st
          /\ G' = [root |-> main.r, top |-> main.r, secs |-> main.st.secs]
     ELSE LET coll == [main.st EXCEPT !.secs = CollectAll(@, main.r)]
              sub == LoadIn(files, coll, main.r, Run.section)
          IN /\ st' = sub.st
             /\ G' = [root |-> main.r, top |-> sub.r, secs |-> sub.st.secs]
  /\ IF Failed(st') THEN Ended(Fails(st'.err), "exited") ELSE Ended(res, "loaded")
  /\ UNCHANGED <<n, doc, r, files, known, temp, disk, site, outs>>

Collect ==
  /\ stage = "loaded"
  /\ G' = [secs |-> CollectAll(st.secs, G.top), root |-> G.root, top |-> G.top,
           ext |-> IF Run.ext = "" THEN "html" ELSE Run.ext,
           broken |-> Run.broken, active |-> {}, tmpl |-> IF Run.tmpl = "gone" THEN "" ELSE Run.tmpl,
           engine |-> IF Run.ext = "" THEN "html" ELSE "text"]
  /\ IF Run.tag # "" /\ FindTag(G'.secs, G'.top, Run.tag) = <<>>
     THEN Ended(Fails(Plain("unknown tag: " \o Run.tag)), "exited")
     ELSE Ended(res, "collected")
  /\ UNCHANGED <<n, doc, r, files, known, temp, disk, st, site, outs>>

Selected == IF Run.tag = "" THEN G.top ELSE FindTag(G.secs, G.top, Run.tag)[1][1]

\* the pages, in the order in which they are written
RenderAll ==
  /\ stage = "collected"
  /\ site' = IF Run.out = "blocked" THEN [e |-> Plain("not a directory"), pages |-> <<>>]
             ELSE IF Run.out = "" THEN Page(G, Selected) ELSE Site(G, Selected)
  /\ stage' = "rendered"
  /\ UNCHANGED <<n, doc, r, files, known, temp, disk, st, G, res, outs>>

Put(d, e) ==
  LET I == {i \in 1..Len(d) : d[i].dir = e.dir /\ d[i].name = e.name} IN
  IF I = {} THEN Append(d, e) ELSE [d EXCEPT ![CHOOSE i \in I : TRUE] = e]
PutAll(d, es) == FoldLeft(Put, d, es)
FileName(s) == G.secs[s].ptag \o "." \o G.ext

\* after a failure it does not matter what is in the files of the pages
Write ==
  /\ stage = "rendered"
  /\ IF Run.out \in {"", "blocked"} THEN UNCHANGED disk
     ELSE IF site.e.k # "none"
     THEN LET ps == PagesFrom(G, Selected) IN
          disk' = PutAll(disk, [i \in 1..Len(ps) |-> [dir |-> Run.out, name |-> FileName(ps[i]), k |-> "any"]])
     ELSE disk' = PutAll(disk,
            [i \in 1..Len(site.pages) |-> [dir |-> Run.out, name |-> site.pages[i].name, k |-> "page", engine |-> G.engine, out |-> site.pages[i].out]]
            \o IF Run.index THEN <<[dir |-> Run.out, name |-> "search_index.json", k |-> "index", out |-> Index(G)]>> ELSE <<>>)
  /\ IF site.e.k # "none" THEN Ended([Fails(site.e) EXCEPT !.stdout.k = IF Run.out = "" THEN "any" ELSE "none"], "exited")
     ELSE IF Run.out = "" THEN Ended([res EXCEPT !.stdout = [k |-> "page", engine |-> G.engine, out |-> site.t]], "exited")
     ELSE Ended(res, "exited")
  /\ UNCHANGED <<n, doc, r, files, known, temp, st, G, site, outs>>

\* The server answers, until it is ended by a signal.
InDir(d, dir) == SelectSeq(d, LAMBDA e : e.dir = dir)
ServeLoad ==
  /\ stage = "serve"
  /\ G' = Collected(LoadWith(files, Run.in, InitWith(Run.broken, known)))
  /\ stage' = "serving"
  /\ UNCHANGED <<n, doc, r, files, known, temp, disk, st, site, res, outs>>
Serve ==
  /\ stage = "serving"
  /\ LET there == InDir(disk, Run.out)
         static == [i \in 1..Len(there) |-> "/" \o there[i].name]
     IN Ended([res EXCEPT !.exit = -2,
                          !.answers = [u \in 1..Len(Run.urls) |-> Answer(G, Sources, IF Run.tmpl = "gone" THEN "" ELSE Run.tmpl, static, Run.urls[u])]],
              "exited")
  /\ UNCHANGED <<n, doc, r, files, known, temp, disk, st, G, site, outs>>

\* the program which was built has ended, or nothing came of it
Cleanup ==
  /\ stage = "exited"
  /\ temp' = IF doc.hasty /\ res.exit # 0 THEN temp ELSE {}
  /\ stage' = "over"
  /\ UNCHANGED <<n, doc, r, files, known, disk, st, G, site, res, outs>>

-----------------------------------------------------------------------------
ErrOut(e) == IF e.k = "none" THEN [k |-> "none"]
             ELSE e @@ [message |-> Message(e), report |-> Report(Sources, e)]

Outcome == [res EXCEPT !.err = ErrOut(res.err)] @@ [disk |-> disk]

Publish ==
  /\ stage = "over"
  /\ LET all == Append(outs, Outcome) IN
     /\ outs' = all
     /\ IF r = Len(doc.runs)
        THEN /\ JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json", all)
             /\ stage' = "done" /\ UNCHANGED <<r, known, st, G, site, res>>
        ELSE /\ r' = r + 1 /\ stage' = "start" /\ Fresh
  /\ UNCHANGED <<n, doc, files, temp, disk>>

NextCase ==
  /\ stage = "done"
  /\ n + Workers <= Len(Cases)
  /\ n' = n + Workers /\ doc' = Cases[n'] /\ r' = 1 /\ stage' = "new" /\ files' = None /\ temp' = {}
  /\ disk' = InitialDisk(doc') /\ outs' = <<>> /\ Fresh

Next == ParseAll \/ Start \/ Compile \/ Exec \/ Ready \/ Evaluate \/ Collect \/ RenderAll \/ Write
        \/ ServeLoad \/ Serve \/ Cleanup \/ Publish \/ NextCase
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C28: nothing temporary is left behind
TempGone == stage \in {"over", "done"} => temp = {}
\* C27: the status tells whether there was an error
StatusTells == (stage = "over" /\ res.exit >= 0) => (res.exit = 0 <=> (res.err.k = "none"))
               \/ "exit" \in ToSet(Run.plugins)
\* C27: either the page is printed or files are written
OneOutput == stage = "over" => (Run.out # "" => res.stdout.k # "page")
             /\ (res.stdout.k = "page" => res.exit = 0)
\* C27: only files of pages and the index change, only in the output directory, and none is removed
MayChange(e) == e.dir = Run.out /\ (e.name = "search_index.json" \/ \E s \in 1..Len(G.secs) : e.name = FileName(s))
Kept == stage \in {"rendered", "over"} => \A i \in 1..Len(disk) : disk'[i] = disk[i] \/ MayChange(disk[i])
OthersKept == [][n' = n => Kept]_vars
\* C28: with plugins given all goes as with the same plugins compiled in
SameButPlugins(a, b) == [a EXCEPT !.plugins = <<>>, !.builtin = <<>>] = [b EXCEPT !.plugins = <<>>, !.builtin = <<>>]
GoodPlugins(a) == ToSet(a.plugins) \subseteq {"tp", "tq"}
Transparent ==
  \A i, j \in 1..Len(outs) :
    LET a == doc.runs[i]
        b == doc.runs[j]
    IN (i < j /\ a.plugins # <<>> /\ b.plugins = <<>> /\ GoodPlugins(a) /\ SameButPlugins(a, b)
        /\ ToSet(a.plugins) = ToSet(b.builtin) /\ a.kind = "build")
       => [outs[i] EXCEPT !.disk = <<>>] = [outs[j] EXCEPT !.disk = <<>>]
=============================================================================
