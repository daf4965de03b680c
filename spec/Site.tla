-------------------------------- MODULE Site --------------------------------
(***************************************************************************)
(* What the server answers, for each state of the files on disk.  The      *)
(* files, their possible contents, and the requests come from the file     *)
(* named by SITE, one JSON record:                                         *)
(*   files     [path, vs (contents), inc (what each content includes)]     *)
(*             the first is the main file                                  *)
(*   tmpls     the possible states of the directory of templates: "" (no   *)
(*             templates), "b1", "b2" (one replacing bold), "fails" (one   *)
(*             that fails when it is used), "bad" (one which is broken)    *)
(*   urls      paths which are requested                                   *)
(*   static    paths of the files in the output directory                  *)
(* A state of the disk is a record [f, t]: f has the version of each file, *)
(* 0 if it does not exist, and t is the state of the templates.            *)
(***************************************************************************)
EXTENDS Answers, Json, IOUtils

Site_ == ndJsonDeserialize(IOEnv.SITE)[1]
OutDir == IOEnv.OUT
NF == Len(Site_.files)
Urls == Site_.urls
Versions(i) == Len(Site_.files[i].vs)
Path(i) == Site_.files[i].path

Contents == {v \in [1..NF -> 0..9] : \A i \in 1..NF : v[i] <= Versions(i)}
Disks == [f : Contents, t : 1..Len(Site_.tmpls)]


Existing(f) == {i \in 1..NF : f[i] > 0}
IndexOf(path) == CHOOSE i \in 1..NF : Path(i) = path
FilesOf(f) == [p \in {Path(i) : i \in Existing(f)} |-> Syn!Parse(Site_.files[IndexOf(p)].vs[f[IndexOf(p)]])]
SourcesOf(f) == [p \in {Path(i) : i \in Existing(f)} |-> Site_.files[IndexOf(p)].vs[f[IndexOf(p)]]]

Key(d) == ToString(d.t) \o FoldLeft(LAMBDA s, i : s \o "-" \o ToString(d.f[i]), "", [i \in 1..NF |-> i])

VARIABLES disk, stage, files, loaded, answers

Answered == Len(answers)
Init == disk \in Disks /\ stage = "new" /\ files = <<>> /\ loaded = <<>> /\ answers = <<>>
ParseAll == stage = "new" /\ files' = FilesOf(disk.f) /\ stage' = "parsed" /\ UNCHANGED <<disk, loaded, answers>>
Load == stage = "parsed" /\ loaded' = LoadOf(files, Path(1)) /\ stage' = "loaded" /\ UNCHANGED <<disk, files, answers>>
Collect == stage = "loaded" /\ loaded' = Collected(loaded) /\ stage' = "collected" /\ UNCHANGED <<disk, files, answers>>
Request ==
  /\ stage = "collected"
  /\ LET sources == SourcesOf(disk.f)
     IN answers' = [u \in 1..Len(Urls) |-> Answer(loaded, sources, Site_.tmpls[disk.t], Site_.static, Urls[u])]
  /\ stage' = "answered"
  /\ UNCHANGED <<disk, files, loaded>>
Write ==
  /\ stage = "answered"
  /\ JsonSerialize(OutDir \o "/answers-" \o Key(disk) \o ".json", answers)
  /\ stage' = "written"
  /\ UNCHANGED <<disk, files, loaded, answers>>
Spec == Init /\ [][ParseAll \/ Load \/ Collect \/ Request \/ Write]_<<disk, stage, files, loaded, answers>>
View == <<disk, stage>>

-----------------------------------------------------------------------------
\* C26: an answer is a page, or a file, or an error, never something in between
AnswersSound ==
  \A u \in 1..Answered :
    LET a == answers[u] IN
    /\ a.status = 500 <=> a.kind = "error"
    /\ a.kind = "page" => IsPage(Urls[u])
    /\ a.kind = "error" => a.says # <<>> \/ a.marks # <<>>
\* either all pages can be loaded, or none
LoadsOrNot ==
  \A u, v \in 1..Answered :
    (answers[u].kind = "error" /\ answers[u].load /\ IsPage(Urls[v])) => answers[v] = answers[u]
=============================================================================
