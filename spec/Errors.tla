------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* How errors are reported: the message, and the lines which the command   *)
(* prints.  `sources' maps paths to the characters of the files.           *)
(***************************************************************************)
EXTENDS Render

SourceLines(sources, file) == Split(Concat(sources[file]), "\n")
SourceLine(sources, file, line) ==
  LET ls == SourceLines(sources, file) IN
  IF line > Len(ls) THEN "" ELSE TrimRightC(ls[line], "\r")

RECURSIVE Message(_)
Message(e) ==
  CASE e.k \in {"plain", "tmpl", "pretty"} -> e.msg
    [] e.k = "undef" -> "undefined function \\" \o e.fn
    [] e.k = "failed" -> "function \\" \o e.fn \o " returned an error: " \o Message(e.err)
    [] e.k = "twice" -> "cannot set title twice"
    [] e.k = "unknown" -> "unknown tag '" \o e.tag \o "'"
    [] e.k = "ambig" -> "ambiguous target for tag '" \o e.tag \o "'"
    [] e.k = "parse" -> "parse error: "

Pad4(n) == LET s == Num(n) IN Repeat(" ", IF Len(s) >= 4 THEN 1 ELSE 4 - Len(s)) \o s

\* the source line, and a marker below the offending part
Snippet(sources, loc, indent) ==
  IF loc.line = 0 THEN <<>>
  ELSE LET prefix == Pad4(loc.line) \o "| " IN
       <<indent \o prefix \o SourceLine(sources, loc.file, loc.line),
         indent \o Repeat(" ", Len(prefix) + loc.col - 1) \o "[31m" \o Repeat("^", loc.len) \o "[0m">>

ErrHead(e, msg) == IF e.line = 0 THEN e.file \o ": " \o msg ELSE e.file \o ":" \o Num(e.line) \o ": " \o msg

\* lines printed for an error; escape characters are left out
Report(sources, e) ==
  CASE e.k \in {"plain", "tmpl"} -> <<Message(e)>>
    [] e.k = "pretty" -> <<"pretty: " \o e.msg>>
    [] e.k \in {"undef", "parse"} -> <<ErrHead(e, Message(e)), "">> \o Snippet(sources, e, "")
    [] e.k = "failed" ->
         <<ErrHead(e, "function \\" \o e.fn \o " returned an error"), "">> \o Snippet(sources, e, "")
         \o <<"[33m" \o Message(e.err) \o "[0m">>
    [] e.k = "twice" ->
         <<ErrHead(e, Message(e)), "">> \o Snippet(sources, e, "")
         \o <<"The section's title was first set here:", "">> \o Snippet(sources, e.first, "")
         \o <<"Maybe the second \\title should be in a \\section{...}?">>
    [] e.k = "unknown" ->
         <<ErrHead(e, Message(e)), "">> \o Snippet(sources, e, "")
         \o IF e.similar = <<>> THEN <<"I couldn't find any similar tags. :(">>
            ELSE <<"These tags seem similar:", "">>
                 \o [i \in 1..Len(e.similar) |-> "- " \o e.similar[i]]
                 \o <<"", "Did you mean one of these?">>
    [] e.k = "ambig" ->
         <<ErrHead(e, Message(e)), "">> \o Snippet(sources, e, "")
         \o <<"The same tag was defined in the following locations:", "">>
         \o FlattenSeq([i \in 1..Len(e.defs) |->
              <<"- " \o e.defs[i].file \o ":">> \o Snippet(sources, e.defs[i], "  ")])
         \o <<"Tags must be unique so I know where to link to!">>

\* what an error page has to say, apart from what is marked
RECURSIVE Says(_)
Says(e) ==
  CASE e.k \in {"plain", "tmpl", "pretty"} -> <<e.msg>>
    [] e.k = "undef" -> <<"\\" \o e.fn>>
    [] e.k = "failed" -> <<"\\" \o e.fn>> \o Says(e.err)
    [] e.k = "unknown" -> <<e.tag>> \o e.similar
    [] e.k = "ambig" -> <<e.tag>>
    [] OTHER -> <<>>

\* what is marked on the error page: <<file, line, before, marked, after>>
Marks(sources, e) ==
  LET mark(loc) ==
        LET l == SourceLine(sources, loc.file, loc.line) IN
        IF loc.col >= 1 /\ Len(l) >= loc.col - 1 + loc.len
        THEN <<loc.file, Num(loc.line), SubSeq(l, 1, loc.col - 1),
               SubSeq(l, loc.col, loc.col + loc.len - 1), SubSeq(l, loc.col + loc.len, Len(l))>>
        ELSE <<loc.file, Num(loc.line), l, "", "">>
      marks(locs) == LET k == SelectSeq(locs, LAMBDA x : x.line # 0) IN [i \in 1..Len(k) |-> mark(k[i])]
  IN
  CASE e.k \in {"undef", "parse", "failed", "unknown"} -> marks(<<e>>)
    [] e.k = "twice" -> marks(<<e, e.first>>)
    [] e.k = "ambig" -> marks(<<e>> \o e.defs)
    [] OTHER -> <<>>
=============================================================================
