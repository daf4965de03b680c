-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Evaluation of documents to the tree of sections.                        *)
(*                                                                         *)
(* The state st of an evaluation is                                        *)
(*   secs : all sections so far                                            *)
(*   err  : the error which ended the evaluation, or NoErr                 *)
(*   log  : the calls made to functions of the test plugins, in order      *)
(*   mem  : content stored by \remember                                    *)
(*   lenient : whether broken references are allowed                       *)
(*   known : names of the plugins which the program has                    *)
(*                                                                         *)
(* `files' maps the paths of the files to their parse (Syntax!Parse).      *)
(***************************************************************************)
EXTENDS Content, Functions_, Marks

NoErr == [k |-> "none"]
Failed(st) == st.err.k # "none"
Plain(msg) == [k |-> "plain", msg |-> msg]
Fail(st, e) == [st EXCEPT !.err = e]

\* errors which carry a location of their own are passed on as they are
IsPretty(e) == e.k \in {"parse", "undef", "failed", "twice", "unknown", "ambig", "pretty"}

\* the name under which the function called fn is looked up: the words, in order
FnKey(fn) == JoinWith(SelectSeq(Split(fn, "-"), LAMBDA w : w # ""), "_")

\* functions as the test plugins log them
Named(key) == ReplaceAll_(key, "_", "-")

InitWith(lenient, known) ==
  [lenient |-> lenient, known |-> known, secs |-> <<>>, err |-> NoErr, log |-> <<>>, mem |-> <<>>]
InitState(lenient) == InitWith(lenient, KnownPlugins)

\* the slug by which a title without tags is known
DefaultTag(secs, title) ==
  LET txt == ReplaceAll_(Summary(secs, StripAux(title)), " & ", " and ")
      cs == Chars(txt)
      dashed == FoldLeftDomain(LAMBDA a, i :
                   IF cs[i] \in Spaces
                   THEN IF i > 1 /\ cs[i - 1] \in Spaces THEN a ELSE Append(a, "-")
                   ELSE Append(a, cs[i]), <<>>, cs)
      kept == SelectSeq(dashed, LAMBDA c : c \in UpperSet \cup LowerSet \cup Digits \cup {"_", "-"})
  IN Concat([i \in 1..Len(kept) |-> LowerOf(kept[i])])

\* the syntax tree as text, as \raw shows it
RECURSIVE Dump(_)
Dump(n) ==
  CASE n.k = "str" -> "'" \o n.s \o "'"
    [] n.k \in {"seq", "para", "pre"} -> n.k \o "(" \o Concat([i \in 1..Len(n.n) |-> Dump(n.n[i])]) \o ")"
    [] n.k = "inv" -> "\\" \o n.fn \o "@" \o Num(n.line) \o ":" \o Num(n.col)
                      \o Concat([i \in 1..Len(n.args) |-> "{" \o Dump(n.args[i]) \o "}"])

MapGet(m, key) ==
  LET I == {i \in 1..Len(m) : m[i][1] = key} IN IF I = {} THEN Nil ELSE m[CHOOSE i \in I : TRUE][2]
\* c, unless it is nothing
Else(c, d) == IF c.k = "nil" THEN d ELSE c

MapSet(m, key, val) ==
  LET I == {i \in 1..Len(m) : m[i][1] = key} IN
  IF I = {} THEN Append(m, <<key, val>>) ELSE [m EXCEPT ![CHOOSE i \in I : TRUE] = <<key, val>>]

\* highlighted code: the markup is raw HTML, of which only the text is known here
CodeContent(lang, flow, pieces) ==
  [k |-> "styled", style |-> IF flow THEN "code-flow" ELSE "code-block", block |-> ~flow,
   c |-> SeqOf_([i \in 1..Len(pieces) |->
           IF pieces[i].k = "text" THEN Styled("raw-html", Str(Concat(pieces[i].s)))
           ELSE Styled(pieces[i].style, Str(Concat(pieces[i].s)))]),
   parts |-> <<<<"Language", Str(lang)>>>>]
\* what \highlight makes of the code
Markers == << [pat |-> [k |-> "some", of |-> {"Q"}], make |-> [k |-> "str", pre |-> <<"(">>, post |-> <<")", "Z">>]],
              [pat |-> [k |-> "lit", s |-> <<"Z">>], make |-> [k |-> "con", style |-> "bold"]],
              [pat |-> [k |-> "lit", s |-> <<"(", "Q">>], make |-> [k |-> "con", style |-> "italic"]] >>

RECURSIVE Unsplit(_, _)
Unsplit(secs, s) ==
  LET one == [secs EXCEPT ![s].split = FALSE] IN
  FoldLeft(LAMBDA a, c : Unsplit(a, c), one, secs[s].children)

RECURSIVE EvalNode(_, _, _, _, _), EvalSeq(_, _, _, _, _, _), EvalLines(_, _, _, _, _, _),
          EvalInvoke(_, _, _, _, _), EvalArgs(_, _, _, _, _, _, _), EvalArg(_, _, _, _),
          Call(_, _, _, _, _, _), EvalSection(_, _, _, _, _, _)

Ret(st, r) == [st |-> st, r |-> r]

\* evaluate node n in section s; r is what the result is appended to
EvalNode(files, st, s, n, r) ==
  CASE n.k = "str" -> Ret(st, AppendC(r, Str(n.s)))
    [] n.k = "seq" -> EvalSeq(files, st, s, n.n, 1, r)
    [] n.k = "inv" -> EvalInvoke(files, st, s, n, r)
    [] n.k = "para" ->
         LET l == EvalLines(files, st, s, n.n, 1, <<>>) IN
         IF Failed(l.st) THEN l
         ELSE IF l.r = <<>> THEN Ret(l.st, r)
         ELSE IF Len(l.r) = 1 /\ ~IsFlow(l.r[1]) THEN Ret(l.st, AppendC(r, l.r[1]))
         ELSE Ret(l.st, AppendC(r, [k |-> "para", n |-> l.r]))
    [] n.k = "pre" ->
         LET l == EvalLines(files, st, s, n.n, 1, <<>>) IN
         IF Failed(l.st) THEN l ELSE Ret(l.st, AppendC(r, [k |-> "pre", n |-> l.r]))

EvalSeq(files, st, s, ns, i, r) ==
  IF i > Len(ns) THEN Ret(st, r)
  ELSE LET e == EvalNode(files, st, s, ns[i], r) IN
       IF Failed(e.st) THEN e ELSE EvalSeq(files, e.st, s, ns, i + 1, e.r)

\* the lines which have any content
EvalLines(files, st, s, ls, i, acc) ==
  IF i > Len(ls) THEN Ret(st, acc)
  ELSE LET e == EvalNode(files, st, s, ls[i], Nil) IN
       IF Failed(e.st) THEN e
       ELSE EvalLines(files, e.st, s, ls, i + 1, IF e.r.k = "nil" THEN acc ELSE Append(acc, e.r))

\* an argument is never nothing
EvalArg(files, st, s, n) ==
  LET e == EvalNode(files, st, s, n, Nil) IN
  IF ~Failed(e.st) /\ e.r.k = "nil" THEN Ret(e.st, Empty) ELSE e

EvalArgs(files, st, s, args, types, i, acc) ==
  IF i > Len(args) THEN Ret(st, acc)
  ELSE IF types[i] = "node" THEN EvalArgs(files, st, s, args, types, i + 1, Append(acc, args[i]))
  ELSE IF types[i] \notin {"con", "str"}
       THEN Ret(Fail(st, Plain("unsupported argument type: " \o types[i])), acc)
  ELSE LET e == EvalArg(files, st, s, args[i]) IN
       IF Failed(e.st) THEN e
       ELSE EvalArgs(files, e.st, s, args, types, i + 1,
                     Append(acc, IF types[i] = "str" THEN Summary(e.st.secs, e.r) ELSE e.r))

EvalInvoke(files, st, s, n, r) ==
  LET key == FnKey(n.fn)
      have == SelectSeq(st.secs[s].plugins, LAMBDA p : key \in DOMAIN Fns(p))
      file == FilePath(st.secs, s)
      loc == [file |-> file, line |-> n.line, col |-> n.col, len |-> Len(n.fn) + 1]
      mismatch(need) == Plain("argument count mismatch for " \o n.fn \o ": given "
                              \o Num(Len(n.args)) \o ", need " \o need)
  IN
  IF have = <<>> THEN Ret(Fail(st, [k |-> "undef", fn |-> n.fn] @@ loc), r)
  ELSE
  LET sig == Fns(have[1])[key]
      np == Len(sig.p)
      na == Len(n.args)
  IN
  IF sig.v = "" /\ na # np THEN Ret(Fail(st, mismatch(Num(np))), r)
  ELSE IF sig.v # "" /\ na < np THEN Ret(Fail(st, mismatch("at least " \o Num(np))), r)
  ELSE
  LET types == [i \in 1..na |-> IF i <= np THEN sig.p[i] ELSE sig.v]
      a == EvalArgs(files, st, s, n.args, types, 1, <<>>)
  IN
  IF Failed(a.st) THEN Ret(a.st, r)
  ELSE
  LET c == Call(files, a.st, s, have[1], n, a.r)
  IN
  IF Failed(c.st)
  THEN Ret(Fail(c.st, IF IsPretty(c.st.err) THEN c.st.err
                      ELSE [k |-> "failed", fn |-> n.fn, err |-> c.st.err] @@ loc), r)
  ELSE IF sig.o \notin {"", "c", "e", "ce"} THEN Ret(Fail(c.st, Plain(sig.o)), r)
  ELSE Ret(c.st, AppendC(r, c.r))

-----------------------------------------------------------------------------
\* a new section below s, from a syntax tree; path is that of its file, if any
EvalSection(files, st, s, node, path, plugins) ==
  LET id == Len(st.secs) + 1
      sec == NewSection(s, path, plugins, Empty, st.lenient)
      e == EvalNode(files, [st EXCEPT !.secs = Append(@, sec)], id, node, Nil)
  IN
  IF Failed(e.st) THEN e
  ELSE Ret([e.st EXCEPT !.secs[id].body = IF e.r.k = "nil" THEN Empty ELSE e.r], id)

AddTag(sec, t) == [sec EXCEPT !.tags = Append(@, t)]

SetTitle(st, s, title, names, line, col) ==
  LET given == IF names = <<>> THEN <<DefaultTag(st.secs, title)>> ELSE names
      tags == [i \in 1..Len(given) |->
                 [name |-> given[i], title |-> title, anchor |-> "", c |-> Nil,
                  line |-> line, col |-> col]]
  IN [st EXCEPT !.secs[s].tags = tags, !.secs[s].title = title, !.secs[s].ptag = given[1],
                !.secs[s].tline = line, !.secs[s].tcol = col]

\* call function fn of a plugin with evaluated arguments a, at syntax node n
Call(files, st, s, plugin, n, a) ==
  LET key == FnKey(n.fn)
      sec == st.secs[s]
      log(x) == [st EXCEPT !.log = Append(@, x)]
      Set(f) == Ret([st EXCEPT !.secs[s] = f], Nil)
      file == FilePath(st.secs, s)
      Rest(i) == SubSeq(a, i, Len(a))
  IN
  CASE plugin = "base" /\ key = "use_plugin" ->
         IF a[1] \in st.known THEN Set([sec EXCEPT !.plugins = Append(@, PluginId(a[1]))])
         ELSE Ret(Fail(st, Plain("unknown plugin '" \o a[1] \o "'")), Nil)
    [] plugin = "base" /\ key = "styled" -> Set([sec EXCEPT !.style = a[1]])
    [] plugin = "base" /\ key = "title" ->
         IF sec.title # Empty
         THEN Ret(Fail(st, [k |-> "twice", file |-> file, line |-> n.line, col |-> n.col, len |-> 6,
                            first |-> [file |-> file, line |-> sec.tline, col |-> sec.tcol, len |-> 6]]), Nil)
         ELSE Ret(SetTitle(st, s, a[1], Rest(2), n.line, n.col), Nil)
    [] plugin = "base" /\ key = "aux" -> Ret(st, [k |-> "aux", c |-> a[1]])
    [] plugin = "base" /\ key = "section" ->
         LET e == EvalSection(files, st, s, a[1], "", sec.plugins) IN
         IF Failed(e.st) THEN e
         ELSE Ret([e.st EXCEPT !.secs[s].children = Append(@, e.r),
                               !.secs[e.r].iline = n.line, !.secs[e.r].icol = n.col], Nil)
    [] plugin = "base" /\ key = "include_section" ->
         LET path == RelativeTo(file, a[1])
             loops == \E i \in 1..Len(Ancestors(st.secs, s)) :
                         st.secs[Ancestors(st.secs, s)[i]].path = path
         IN
         IF path = "" \/ \E f \in DOMAIN files : HasPrefix(f, path \o "/")
         THEN Ret(Fail(st, Plain("read " \o (IF path = "" THEN "." ELSE path) \o ": is a directory")), Nil)
         ELSE IF loops THEN Ret(Fail(st, Plain("section includes itself: " \o path)), Nil)
         ELSE IF path \notin DOMAIN files
         THEN Ret(Fail(st, Plain("stat " \o path \o ": no such file or directory")), Nil)
         ELSE IF ~files[path].ok
         THEN Ret(Fail(st, [k |-> "parse", file |-> path, line |-> files[path].line,
                            col |-> files[path].col, len |-> 1]), Nil)
         ELSE LET e == EvalSection(files, st, s, files[path].v, path, <<"base">>) IN
              IF Failed(e.st) THEN e
              ELSE Ret([e.st EXCEPT !.secs[s].children = Append(@, e.r)], Nil)
    [] plugin = "base" /\ key = "single_page" ->
         Ret([st EXCEPT !.secs = Unsplit([@ EXCEPT ![s].prevent = TRUE], s)], Nil)
    [] plugin = "base" /\ key = "split_sections" ->
         Set([sec EXCEPT !.reset = TRUE, !.split = @ \/ ~SplitPrevented(st.secs, s)])
    [] plugin = "base" /\ key = "omit_children_from_table_of_contents" -> Set([sec EXCEPT !.omit = TRUE])
    [] plugin = "base" /\ key = "table_of_contents" -> Ret(st, [k |-> "toc", sec |-> s])
    [] plugin = "base" /\ key = "code" -> Ret(st, Styled("verbatim", a[1]))
    [] plugin = "base" /\ key \in {"italic", "bold", "larger", "smaller", "strike", "superscript",
                                  "subscript", "inset", "aside"} -> Ret(st, Styled(key, a[1]))
    [] plugin = "base" /\ key = "link" -> Ret(st, [k |-> "link", c |-> a[1], target |-> a[2]])
    [] plugin = "base" /\ key = "reference" ->
         Ret(st, [k |-> "ref", sec |-> s, tag |-> a[1], c |-> IF Len(a) > 1 THEN a[2] ELSE Nil,
                  opt |-> FALSE, line |-> n.line, col |-> n.col])
    [] plugin = "base" /\ key = "target" ->
         Ret(st, [k |-> "target", tag |-> a[1],
                  title |-> IF Len(a) \in {2, 3} THEN a[2] ELSE Str(a[1]),
                  c |-> IF Len(a) = 3 THEN a[3] ELSE Nil, line |-> n.line, col |-> n.col])
    [] plugin = "base" /\ key \in {"list", "table_row"} -> Ret(st, [k |-> "list", n |-> a, ordered |-> FALSE])
    [] plugin = "base" /\ key = "ordered_list" -> Ret(st, [k |-> "list", n |-> a, ordered |-> TRUE])
    [] plugin = "base" /\ key = "definition" -> Ret(st, [k |-> "list", n |-> a, ordered |-> FALSE])
    [] plugin = "base" /\ key = "image" ->
         Ret(st, [k |-> "image", path |-> a[1], desc |-> IF Len(a) > 1 THEN a[2] ELSE ""])
    [] plugin = "base" /\ key = "set_partial" -> Set([sec EXCEPT !.parts = MapSet(@, a[1], a[2])])
    [] plugin = "base" /\ key = "table" ->
         LET bad == {i \in 1..Len(a) : a[i].k # "list"} IN
         IF bad = {} THEN Ret(st, [k |-> "table", rows |-> [i \in 1..Len(a) |-> a[i].n]])
         ELSE Ret(Fail(st, Plain("table row is not a list: "
                   \o Summary(st.secs, a[CHOOSE i \in bad : \A j \in bad : i <= j]))), Nil)
    [] plugin = "base" /\ key = "definitions" ->
         LET bad == {i \in 1..Len(a) : a[i].k # "list" \/ Len(a[i].n) # 2} IN
         IF bad = {} THEN Ret(st, [k |-> "defs", n |-> [i \in 1..Len(a) |-> <<a[i].n[1], a[i].n[2]>>]])
         ELSE LET b == a[CHOOSE i \in bad : \A j \in bad : i <= j] IN
              Ret(Fail(st, Plain((IF b.k # "list" THEN "definition item is not a list: "
                                  ELSE "definition item must have two entries: ")
                                 \o Summary(st.secs, b))), Nil)
    \* ---- the plugins of the harness; they log their calls
    [] plugin = "tp" ->
       LET lg == log(Named(key) \o (IF Len(a) > 0 /\ Fns("tp")[key].p # <<>> /\ Fns("tp")[key].p[1] = "str"
                              THEN ":" \o a[1] ELSE ""))
           R(x) == Ret(lg, x)
           Err(e) == Ret(Fail(lg, e), Nil)
       IN
       CASE key \in {"echo", "fine"} -> R(a[1])
         [] key = "text" -> R(Str(a[1]))
         [] key \in {"nothing", "note", "nil_content", "nil_both", "no_error"} -> R(Nil)
         [] key \in {"fail", "fail_both"} -> Err(Plain(a[1]))
         [] key \in {"fail_pretty", "fail_pretty_both"} -> Err([k |-> "pretty", msg |-> a[1]])
         [] key = "pair" -> R(SeqOf_(<<a[1], a[2]>>))
         [] key = "three" -> R(SeqOf_(<<a[1], Str(a[2]), a[3]>>))
         [] key = "join" ->
              R(AppendAll([i \in 1..(2 * (Len(a) - 1)) |-> IF i % 2 = 1 THEN a[(i + 3) \div 2] ELSE Str(a[1])]))
         [] key = "strs" -> R(Str(JoinWith(a, "|")))
         [] key = "gather" -> R(SeqOf_(a))
         [] key = "raw" -> R(Str(Dump(a[1])))
         [] key = "raws" -> R(Str(a[1] \o Concat([i \in 1..(Len(a) - 1) |-> Dump(a[i + 1])])))
         [] key = "block" -> R([Styled("aside", a[1]) EXCEPT !.block = TRUE])
         [] key = "para" -> R([k |-> "para", n |-> <<a[1]>>])
         [] key = "lines" -> R([k |-> "pre", n |-> a])
         [] key = "dup" -> R(SeqOf_(<<a[1], a[1]>>))
         [] key = "remember" -> Ret([lg EXCEPT !.mem = MapSet(@, a[1], a[2])], Nil)
         [] key = "recall" -> R(MapGet(st.mem, a[1]))
         [] key = "extend" -> R(AppendC(MapGet(st.mem, a[1]), a[2]))
         [] key = "style" -> R(Styled(a[1], a[2]))
         [] key = "style_with" -> R([Styled(a[1], a[2]) EXCEPT !.parts = <<<<a[3], a[4]>>>>])
         [] key = "optional" ->
              R([k |-> "ref", sec |-> s, tag |-> a[1], c |-> a[2], opt |-> TRUE,
                 line |-> n.line, col |-> n.col])
         [] key = "lazy" -> R([k |-> "lazy", block |-> FALSE, c |-> Else(a[1], Empty), fails |-> FALSE, err |-> ""])
         [] key = "lazy_block" -> R([k |-> "lazy", block |-> TRUE, c |-> Else(a[1], Empty), fails |-> FALSE, err |-> ""])
         [] key = "lazy_fail" -> R([k |-> "lazy", block |-> FALSE, c |-> Nil, fails |-> TRUE, err |-> a[1]])
         [] key = "lazy_nil" -> R([k |-> "lazy", block |-> FALSE, c |-> Empty, fails |-> FALSE, err |-> ""])
         [] key = "lazy_gate" -> R([k |-> "lazy", block |-> FALSE, c |-> Str(a[1]), fails |-> FALSE, err |-> ""])
         [] key = "a_b_c" -> R(Str("abc"))
         [] key = "highlight" ->
              R(CodeContent(a[1], IsFlow(a[2]), Marked(Chars(Summary(st.secs, a[2])), Markers)))
         [] OTHER -> R(Nil)
    [] plugin = "tq" ->
       LET lg == log("q:" \o Named(key)) IN
       CASE key = "echo" -> Ret(lg, SeqOf_(<<Str("q("), a[1], Str(")")>>))
         [] key = "text" -> Ret(lg, Str("q[" \o JoinWith(a, ",") \o "]"))
         [] key = "only_q" -> Ret(lg, Str("q:" \o a[1]))
         [] key = "bold" -> Ret(lg, Str("qbold"))
         [] OTHER -> Ret(lg, Nil)
    [] plugin = "chroma" ->
       Ret(st, CodeContent(a[1], IsFlow(a[2]), <<TextPiece(Chars(Summary(st.secs, a[2])))>>))

-----------------------------------------------------------------------------
\* tags of the targets within content, in document order
RECURSIVE Targets(_), PartTargets(_)
Targets(c) ==
  CASE c.k \in {"seq", "para", "pre", "list"} -> FlattenSeq([i \in 1..Len(c.n) |-> Targets(c.n[i])])
    [] c.k \in {"link", "aux"} -> Targets(c.c)
    [] c.k = "ref" -> IF c.c.k = "nil" THEN <<>> ELSE Targets(StripAux(c.c))  \* what is shown
    [] c.k = "styled" -> Targets(c.c) \o PartTargets(c.parts)
    [] c.k = "target" -> <<[name |-> c.tag, title |-> c.title, anchor |-> c.tag, c |-> c.c,
                            line |-> c.line, col |-> c.col]>>
    [] c.k = "table" -> FlattenSeq([i \in 1..Len(c.rows) |->
                           FlattenSeq([j \in 1..Len(c.rows[i]) |-> Targets(c.rows[i][j])])])
    [] c.k = "defs" -> FlattenSeq([i \in 1..Len(c.n) |-> Targets(c.n[i][1]) \o Targets(c.n[i][2])])
    [] OTHER -> <<>>
SortedParts(parts) == SortSeq(parts, LAMBDA x, y : StrLess(x[1], y[1]))
PartTargets(parts) == LET p == SortedParts(parts) IN FlattenSeq([i \in 1..Len(p) |-> Targets(p[i][2])])

CollectSection(sec) ==
  [sec EXCEPT !.tags = @ \o Targets(sec.title) \o Targets(sec.body) \o PartTargets(sec.parts)]
CollectAll(secs, root) ==
  LET live == ToSet(Below(secs, root)) IN
  [i \in 1..Len(secs) |-> IF i \in live THEN CollectSection(secs[i]) ELSE secs[i]]

\* Load a document: the state after evaluation (and collection, if it succeeded).
\* parent is 0, or the section below which it is loaded (not as one of its children).
LoadIn(files, st, parent, path) ==
  IF path \notin DOMAIN files THEN Ret(Fail(st, Plain("stat " \o path \o ": no such file or directory")), 0)
  ELSE IF ~files[path].ok
  THEN Ret(Fail(st, [k |-> "parse", file |-> path, line |-> files[path].line, col |-> files[path].col,
                     len |-> 1]), 0)
  ELSE EvalSection(files, st, parent, files[path].v, path, <<"base">>)
=============================================================================
