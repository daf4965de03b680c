------------------------------- MODULE Routes -------------------------------
(***************************************************************************)
(* Requests for the pages of documents which come from the file named by   *)
(* CASES: one request for each tag, and some more.  The answers go to the  *)
(* directory OUT.                                                          *)
(***************************************************************************)
EXTENDS Answers, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
OutDir == IOEnv.OUT
Workers == 8
Static_ == <<"/other.txt", "/other.html">>

VARIABLES n, doc, stage, files, loaded, urls, answers
vars == <<n, doc, stage, files, loaded, urls, answers>>
View == <<n, stage, Len(answers)>>

Paths == {doc.files[i].path : i \in 1..Len(doc.files)}
Sources == [p \in Paths |-> doc.files[CHOOSE i \in 1..Len(doc.files) : doc.files[i].path = p].src]

Init == /\ n \in 1..(IF Len(Cases) < Workers THEN Len(Cases) ELSE Workers)
        /\ doc = Cases[n]
        /\ stage = "new" /\ files = <<>> /\ loaded = <<>> /\ urls = <<>> /\ answers = <<>>

NamesOf(l) == IF ~l.ok THEN <<>> ELSE LET all == AllTags(l.secs, l.root) IN SetToSeq({all[i][2].name : i \in 1..Len(all)})
\* paths which are almost those of a page
Odd(names) ==
  IF names = <<>> THEN <<>>
  ELSE LET a == names[1]  b == names[Len(names)] IN
       <<"//" \o a \o ".html", "/sub/" \o a \o ".html", "/" \o a, "/" \o b \o ".html/", "/" \o b \o ".HTML", "/" \o b \o ".html.html">>
MoreUrls == <<"/", "/index.html", "/other.txt", "/other.html", "/nowhere.html", "/nowhere">>

ParseAll ==
  /\ stage = "new"
  /\ files' = [p \in Paths |-> Syn!Parse(Sources[p])]
  /\ stage' = "parsed"
  /\ UNCHANGED <<n, doc, loaded, urls, answers>>
Load ==
  /\ stage = "parsed"
  /\ loaded' = LoadOf(files, doc.root)
  /\ stage' = "loaded"
  /\ UNCHANGED <<n, doc, files, urls, answers>>
Collect ==
  /\ stage = "loaded"
  /\ loaded' = Collected(loaded)
  /\ stage' = "collected"
  /\ UNCHANGED <<n, doc, files, urls, answers>>
Start ==
  /\ stage = "collected"
  /\ urls' = LET names == NamesOf(loaded) IN [i \in 1..Len(names) |-> "/" \o names[i] \o ".html"] \o Odd(names) \o MoreUrls
  /\ stage' = "ready"
  /\ UNCHANGED <<n, doc, files, loaded, answers>>

Request ==
  /\ stage = "ready" /\ Len(answers) < Len(urls)
  /\ LET u == urls[Len(answers) + 1] IN answers' = Append(answers, [u |-> u, a |-> Answer(loaded, Sources, doc.tmpl, Static_, u)])
  /\ UNCHANGED <<n, doc, stage, files, loaded, urls>>

\* each worker goes on with the next of its cases
Continue ==
  /\ stage = "ready" /\ Len(answers) = Len(urls)
  /\ JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json", answers)
  /\ n + Workers <= Len(Cases)
  /\ n' = n + Workers
  /\ doc' = Cases[n']
  /\ stage' = "new" /\ files' = <<>> /\ loaded' = <<>> /\ urls' = <<>> /\ answers' = <<>>

Spec == Init /\ [][ParseAll \/ Load \/ Collect \/ Start \/ Request \/ Continue]_vars

-----------------------------------------------------------------------------
\* C26
LastAnswer == answers[Len(answers)]
Sound ==
  answers # <<>> =>
    LET a == LastAnswer.a
        u == LastAnswer.u
    IN /\ a.status = 500 <=> a.kind = "error"
       /\ a.kind = "error" => a.says # <<>> \/ a.marks # <<>>
       /\ loaded.ok /\ u \notin {MoreUrls[i] : i \in 1..Len(MoreUrls)} \cup {LET o == Odd(NamesOf(loaded)) IN o[i] : i \in 1..Len(Odd(NamesOf(loaded)))} => a.kind \in {"page", "error"}
       /\ u = "/nowhere.html" /\ loaded.ok => a.status = 404
=============================================================================
