------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The build of a document as a state machine: parse, evaluate, collect,   *)
(* render, write.  The documents come from the file named by CASES, one    *)
(* JSON record per line; the outcome of each goes to the directory OUT,    *)
(* where the harness compares it with what the implementation does.        *)
(*                                                                         *)
(* The invariants state the properties of the design on every document.    *)
(***************************************************************************)
EXTENDS Errors, Json, IOUtils

Syn == INSTANCE Syntax

Cases == ndJsonDeserialize(IOEnv.CASES)
OutDir == IOEnv.OUT
Workers == 8

VARIABLES n,      \* number of the case
          doc,    \* the document and the way in which it is built
          stage,  \* "new", "parsed", "evaluated", "collected", "done"
          files,  \* parse of each file
          st,     \* state of the evaluation
          G,      \* environment for rendering
          site,   \* pages
          err     \* what the build fails with

vars == <<n, doc, stage, files, st, G, site, err>>
View == <<n, stage>>

Case == doc
Paths == {Case.files[i].path : i \in 1..Len(Case.files)}
SourceOf(p) == Case.files[CHOOSE i \in 1..Len(Case.files) : Case.files[i].path = p].src
Sources == [p \in Paths |-> SourceOf(p)]

\* everything that a case does not need stays empty
None == <<>>

Init == /\ n \in 1..(IF Len(Cases) < Workers THEN Len(Cases) ELSE Workers)
        /\ doc = Cases[n]
        /\ stage = "new" /\ files = None /\ st = None /\ G = None /\ site = None /\ err = NoErr

ParseAll ==
  /\ stage = "new"
  /\ files' = [p \in Paths |-> Syn!Parse(SourceOf(p))]
  /\ stage' = "parsed"
  /\ UNCHANGED <<n, doc, st, G, site, err>>

\* with a section path, that file is loaded below the root document, which is
\* collected first
Evaluate ==
  /\ stage = "parsed"
  /\ LET main == LoadIn(files, InitState(Case.broken), 0, Case.root) IN
     IF Failed(main.st) \/ Case.section = ""
     THEN /\ st' = main.st
          /\ G' = [root |-> main.r, top |-> main.r, secs |-> main.st.secs]
     ELSE LET coll == [main.st EXCEPT !.secs = CollectAll(@, main.r)]
              sub == LoadIn(files, coll, main.r, Case.section)
          IN /\ st' = sub.st
             /\ G' = [root |-> main.r, top |-> sub.r, secs |-> sub.st.secs]
  /\ err' = st'.err
  /\ stage' = IF Failed(st') THEN "failed" ELSE "evaluated"
  /\ UNCHANGED <<n, doc, files, site>>

Collect ==
  /\ stage = "evaluated"
  /\ G' = [secs |-> CollectAll(st.secs, G.top), root |-> G.root, top |-> G.top, ext |-> Case.ext,
           broken |-> Case.broken, active |-> {}, tmpl |-> Case.tmpl, engine |-> Case.engine]
  /\ stage' = "collected"
  /\ UNCHANGED <<n, doc, files, st, site, err>>

\* a part may be selected by tag
Selected ==
  IF Case.tag = "" THEN [ok |-> TRUE, s |-> G.top]
  ELSE LET f == FindTag(G.secs, G.top, Case.tag) IN
       IF f = <<>> THEN [ok |-> FALSE] ELSE [ok |-> TRUE, s |-> f[1][1]]

RenderAll ==
  /\ stage = "collected"
  /\ site' = IF ~Selected.ok THEN [e |-> Plain("unknown tag: " \o Case.tag), pages |-> <<>>]
             ELSE IF Case.single
             THEN LET p == Page(G, Selected.s) IN
                  [e |-> p.e, pages |-> <<[sec |-> Selected.s, name |-> "-", out |-> p.t]>>]
             ELSE Site(G, Selected.s)
  /\ err' = site'.e
  /\ stage' = "rendered"
  /\ UNCHANGED <<n, doc, files, st, G>>

-----------------------------------------------------------------------------
\* the outcome, as the harness sees it

RECURSIVE DumpC(_, _)
DumpC(secs, c) ==
  LET many(s) == [i \in 1..Len(s) |-> DumpC(secs, s[i])] IN
  CASE c.k \in {"seq", "para", "pre", "list"} -> [c EXCEPT !.n = many(@)]
    [] c.k = "styled" -> [c EXCEPT !.c = DumpC(secs, @),
                                   !.parts = [i \in 1..Len(@) |-> <<@[i][1], DumpC(secs, @[i][2])>>]]
    [] c.k \in {"link", "aux"} -> [c EXCEPT !.c = DumpC(secs, @)]
    [] c.k = "ref" -> [k |-> "ref", tag |-> c.tag, c |-> DumpC(secs, c.c), opt |-> c.opt,
                       line |-> c.line, col |-> c.col, from |-> secs[c.sec].ptag]
    [] c.k = "target" -> [c EXCEPT !.title = DumpC(secs, @), !.c = DumpC(secs, @)]
    [] c.k = "table" -> [c EXCEPT !.rows = [i \in 1..Len(@) |-> many(@[i])]]
    [] c.k = "defs" -> [c EXCEPT !.n = [i \in 1..Len(@) |-> many(@[i])]]
    [] c.k = "toc" -> [k |-> "toc", of |-> secs[c.sec].ptag]
    [] c.k = "lazy" -> [k |-> "lazy", block |-> c.block]
    [] OTHER -> c

RECURSIVE DumpS(_, _)
DumpS(secs, s) ==
  LET sec == secs[s]
      name(x) == IF x = 0 THEN "-" ELSE secs[x].ptag
      parts == SortedParts(sec.parts)
  IN
  [title |-> DumpC(secs, sec.title), body |-> DumpC(secs, sec.body), ptag |-> sec.ptag,
   tags |-> [i \in 1..Len(sec.tags) |->
               [name |-> sec.tags[i].name, anchor |-> sec.tags[i].anchor,
                title |-> DumpC(secs, sec.tags[i].title), c |-> DumpC(secs, sec.tags[i].c),
                line |-> sec.tags[i].line, col |-> sec.tags[i].col]],
   path |-> sec.path, file |-> FilePath(secs, s), style |-> sec.style,
   parts |-> [i \in 1..Len(parts) |-> <<parts[i][1], DumpC(secs, parts[i][2])>>],
   split |-> sec.split, prevent |-> sec.prevent, omit |-> sec.omit,
   number |-> Number(secs, s),
   depth |-> Depth(secs, s), level |-> PageDepth(secs, s), line |-> sec.iline, col |-> sec.icol,
   next |-> name(NextSection(secs, s)), prev |-> name(PrevSection(secs, s)),
   anchors |-> HasAnchors(secs, s),
   children |-> [i \in 1..Len(sec.children) |-> DumpS(secs, sec.children[i])]]

Want(x) == \E i \in 1..Len(Case.want) : Case.want[i] = x

ErrOut(e) == IF e.k = "none" THEN [k |-> "none"]
             ELSE e @@ [message |-> Message(e), report |-> Report(Sources, e), marks |-> Marks(Sources, e)]

Outcome ==
  [id |-> Case.id, stage |-> stage, log |-> st.log, err |-> ErrOut(err)]
  @@ (IF stage = "rendered" /\ Want("tree") THEN [tree |-> DumpS(G.secs, G.top)] ELSE <<>>)
  @@ (IF stage = "rendered" /\ Want("pages")
      THEN [pages |-> [i \in 1..Len(site.pages) |-> [name |-> site.pages[i].name, out |-> site.pages[i].out]]]
      ELSE <<>>)
  @@ (IF stage = "rendered" /\ Want("index") THEN [index |-> Index(G)] ELSE <<>>)
  @@ (IF stage = "rendered" /\ Want("stripped")
      THEN [stripped |-> [i \in 1..Len(Below(G.secs, G.top)) |->
              DumpC(G.secs, StripAux(G.secs[Below(G.secs, G.top)[i]].body))]]
      ELSE <<>>)

Write ==
  /\ stage \in {"rendered", "failed"}
  /\ JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json", Outcome)
  /\ stage' = "done"
  /\ UNCHANGED <<n, doc, files, st, G, site, err>>

NextCase ==
  /\ stage = "done"
  /\ n + Workers <= Len(Cases)
  /\ n' = n + Workers /\ doc' = Cases[n']
  /\ stage' = "new" /\ files' = None /\ st' = None /\ G' = None /\ site' = None /\ err' = NoErr

Next == ParseAll \/ Evaluate \/ Collect \/ RenderAll \/ Write \/ NextCase
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* properties of the design

Rendered == stage = "rendered"
Good == Rendered /\ err.k = "none"
Whole == Good /\ Case.tag = "" /\ Case.section = "" /\ ~Case.single
AllSecs == ToSet(Below(G.secs, G.root))

\* C13: every section is on exactly one page, that of its owner, in order
OnePage ==
  Whole => LET PagesIn == [i \in 1..Len(site.pages) |-> OnPage(G.secs, site.pages[i].sec)]
               all == FlattenSeq(PagesIn)
           IN /\ ToSet(all) = AllSecs
              /\ Len(all) = Cardinality(AllSecs)
              /\ \A i \in 1..Len(site.pages) : \A j \in 1..Len(PagesIn[i]) :
                    PageOwner(G.secs, PagesIn[i][j]) = site.pages[i].sec
              /\ \A s \in AllSecs : SplitPrevented(G.secs, s) => ~G.secs[s].split

\* C14
NumbersUnique ==
  Rendered => LET below == ToSet(Below(G.secs, G.root)) IN
              \A s, t \in below : Number(G.secs, s) = Number(G.secs, t) => s = t

\* tokens of a page as seen by a browser
Refs(out) == {i \in 1..Len(out) : out[i][1] = "o" /\ Len(out[i]) > 2 /\ out[i][3] = "ref"}
Ids(out) == {out[i][j + 1] : <<i, j>> \in {<<x, y>> \in (1..Len(out)) \X (3..4) :
                out[x][1] = "o" /\ y < Len(out[x]) /\ out[x][y] = "id"}}

\* targets which are collected, but not shown: in partials, and in the content
\* of references and styles of which templates show nothing
RECURSIVE Unshown(_)
Unshown(c) ==
  LET many(s) == FlattenSeq([i \in 1..Len(s) |-> Unshown(s[i])]) IN
  CASE c.k \in {"seq", "para", "pre", "list"} -> many(c.n)
    [] c.k = "styled" -> Unshown(c.c) \o PartTargets(c.parts)
    [] c.k \in {"link", "aux"} -> Unshown(c.c)
    [] c.k = "ref" -> Unshown(StripAux(c.c))
    [] c.k = "table" -> FlattenSeq([i \in 1..Len(c.rows) |-> many(c.rows[i])])
    [] c.k = "defs" -> FlattenSeq([i \in 1..Len(c.n) |-> many(c.n[i])])
    [] OTHER -> <<>>
HiddenTargets(g) ==
  UNION {LET sec == g.secs[s]
             ts == PartTargets(sec.parts) \o Unshown(sec.title) \o Unshown(sec.body)
         IN {ts[i].name : i \in 1..Len(ts)} : s \in AllSecs}

\* C12: every link leads to a page which exists, and to an anchor on it
\* (placeholders of broken references excepted)
LinksLead ==
  (Whole /\ Case.engine = "html" /\ ~Case.broken /\ Case.tmpl \notin {"style", "side"}) =>
  LET names == {site.pages[i].name : i \in 1..Len(site.pages)}
      unique == Cardinality(names) = Len(site.pages)
      ids == [p \in names |-> UNION {Ids(site.pages[i].out) : i \in {j \in 1..Len(site.pages) : site.pages[j].name = p}}]
  IN unique =>
     \A i \in 1..Len(site.pages) : \A j \in Refs(site.pages[i].out) :
        LET tok == site.pages[i].out[j] IN
        /\ tok[4] \in names
        /\ tok[5] # "" => tok[5] \in ids[tok[4]] \/ tok[5] \in HiddenTargets(G)

\* start and end tags of every page match
Balanced ==
  (Rendered /\ Case.engine = "html") =>
  \A i \in 1..Len(site.pages) :
    LET step(acc, t) == IF t[1] = "o" /\ t[2] \notin {"img", "meta"} THEN Append(acc, t[2])
                        ELSE IF t[1] = "c" THEN IF acc # <<>> /\ acc[Len(acc)] = t[2]
                                                THEN SubSeq(acc, 1, Len(acc) - 1) ELSE <<"!">> \o acc
                        ELSE acc
    IN FoldLeft(step, <<>>, site.pages[i].out) = <<>>

\* C15: nothing auxiliary is left where it is stripped, and all else is kept
AuxStripped ==
  Rendered => \A s \in AllSecs :
     /\ NoAux(StripAux(G.secs[s].body))
     /\ StripAux(StripAux(G.secs[s].body)) = StripAux(G.secs[s].body)
     /\ NoAux(G.secs[s].body) => StripAux(G.secs[s].body) = G.secs[s].body

\* C16: with all sections split, next visits everything in order
RECURSIVE Walk(_, _)
Walk(secs, s) == IF s = 0 THEN <<>> ELSE <<s>> \o Walk(secs, NextSection(secs, s))
NavigationComplete ==
  (Rendered /\ \A s \in AllSecs : G.secs[s].split \/ G.secs[s].children = <<>>)
     => Walk(G.secs, G.root) = Below(G.secs, G.root)

\* C07: a failure is never lost, and a build which failed writes no page
FailuresKept ==
  /\ stage = "failed" => err.k # "none"
  /\ stage = "evaluated" => st.err.k = "none"
  /\ (Rendered /\ err.k # "none") => Len(site.pages) = 0 \/ Case.single

\* C10: the primary tag is the first tag
PrimaryFirst ==
  Rendered => \A s \in AllSecs : G.secs[s].tags # <<>> =>
                 (G.secs[s].ptag = G.secs[s].tags[1].name \/ G.secs[s].title = Empty)

\* C09: parents and children agree, and file inclusion never loops
TreeSound ==
  Rendered => \A s \in AllSecs :
     /\ \A i \in 1..Len(G.secs[s].children) : G.secs[G.secs[s].children[i]].parent = s
     /\ LET up == SelectSeq(Ancestors(G.secs, s), LAMBDA x : G.secs[x].path # "") IN
        \A i, j \in 1..Len(up) : i # j => G.secs[up[i]].path # G.secs[up[j]].path

\* C21: the index has every tag once, each located where a reference leads
IndexComplete ==
  (Rendered /\ Want("index")) =>
    LET ix == Index(G) IN
    /\ {ix[i].name : i \in 1..Len(ix)} = {t[2].name : t \in ToSet(AllTags(G.secs, G.root))}
    /\ \A i, j \in 1..Len(ix) : ix[i].name = ix[j].name => i = j

Invariants == /\ OnePage /\ NumbersUnique /\ LinksLead /\ Balanced /\ AuxStripped
              /\ NavigationComplete /\ FailuresKept /\ PrimaryFirst /\ TreeSound /\ IndexComplete
=============================================================================
