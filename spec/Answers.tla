------------------------------- MODULE Answers -------------------------------
(***************************************************************************)
(* What the server answers to a request: from the document as it is on     *)
(* disk, the templates, and the files in the output directory.             *)
(***************************************************************************)
EXTENDS Errors

Syn == INSTANCE Syntax

\* The document as it is loaded, from files which were parsed; and collected.
\* (These are steps of their own: TLC evaluates what a step gives only once.)
LoadWith(files, main, init) ==
  LET m == LoadIn(files, init, 0, main) IN
  IF Failed(m.st) THEN [ok |-> FALSE, err |-> m.st.err]
  ELSE [ok |-> TRUE, root |-> m.r, secs |-> m.st.secs, broken |-> init.lenient]
LoadOf(files, main) == LoadWith(files, main, InitState(FALSE))
Collected(l) == IF l.ok THEN [l EXCEPT !.secs = CollectAll(@, l.root)] ELSE l

EnvOf(l, tmpl) ==
  [secs |-> l.secs, root |-> l.root, top |-> l.root, ext |-> "html", broken |-> l.broken, active |-> {},
   tmpl |-> tmpl, engine |-> "html"]

HasSuffix(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x

\* the tag of which a URL names the page
IsPage(url) == url = "/" \/ HasSuffix(url, ".html")
TagOf(url) == IF url = "/" THEN "index" ELSE SubSeq(url, 2, Len(url) - 5)

ErrorAnswer(sources, e, load) ==
  [load |-> load, status |-> 500, kind |-> "error", k |-> e.k, message |-> Message(e), says |-> Says(e), marks |-> Marks(sources, e)]
Static(static, path) == \E i \in 1..Len(static) : static[i] = path
Holds(static, dir) == \E i \in 1..Len(static) : LET s == static[i] IN Len(s) > Len(dir) /\ SubSeq(s, 1, Len(dir)) = dir
\* what the file server makes of it
StaticAnswer(static, url) ==
  IF HasSuffix(url, "/index.html") THEN [status |-> 301, kind |-> "moved"]
  ELSE IF HasSuffix(url, "/")
  THEN IF Static(static, url \o "index.html") THEN [status |-> 200, kind |-> "static", url |-> url \o "index.html"]
       ELSE IF url = "/" \/ Holds(static, url) THEN [status |-> 200, kind |-> "list"]
       ELSE [status |-> 404, kind |-> "none"]
  ELSE IF Static(static, url) THEN [status |-> 200, kind |-> "static", url |-> url]
  ELSE IF Holds(static, url \o "/") THEN [status |-> 301, kind |-> "moved"]
  ELSE [status |-> 404, kind |-> "none"]

\* l: document, sources: its files, tmpl: state of the templates, static: files
Answer(l, sources, tmpl, static, url) ==
  IF ~IsPage(url) THEN StaticAnswer(static, url)
  ELSE IF ~l.ok THEN ErrorAnswer(sources, l.err, TRUE)
  ELSE LET found == FindTag(l.secs, l.root, TagOf(url)) IN
       IF found = <<>> THEN StaticAnswer(static, url)
       ELSE IF tmpl = "bad" THEN [load |-> FALSE, status |-> 500, kind |-> "error", k |-> "plain", message |-> "broken template", says |-> <<"bold.tmpl">>, marks |-> <<>>]
       ELSE LET p == Page(EnvOf(l, tmpl), found[1][1]) IN
            IF p.e.k # "none" THEN ErrorAnswer(sources, p.e, FALSE)
            ELSE [status |-> 200, kind |-> "page", out |-> p.t]
=============================================================================
