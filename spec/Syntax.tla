------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The syntax of Booklit documents: an executable definition of the        *)
(* parsing expression grammar (ast/booklit.peg).                           *)
(*                                                                         *)
(* A source is a tuple S of one-character strings.  A parser of a          *)
(* construct takes S and a position i (1-based) and yields a record        *)
(*                                                                         *)
(*    [ok |-> BOOLEAN, p |-> next position, v |-> value, f |-> furthest]   *)
(*                                                                         *)
(* where f is the furthest position at which a terminal failed to match,   *)
(* (or matched where it must not), which is where a parse error is         *)
(* reported.                                                               *)
(*                                                                         *)
(* Nodes:  [k |-> "str", s |-> STRING]                                     *)
(*         [k |-> "seq"|"para"|"pre", n |-> Seq(Node)]                     *)
(*         [k |-> "inv", fn, args, line, col]                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

LOCAL MaxOf(a, b) == IF a >= b THEN a ELSE b

At(S, i) == IF i <= Len(S) THEN S[i] ELSE "EOF"

Blank == {" ", "\t"}
NotString == {"\\", "{", "}", "\r", "\n", "EOF"}
NotVerbatim == {"}", "\r", "\n", "EOF"}
NameChars == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
              "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
              "-"}

\* first position from i on whose character is (not) in the set C
SkipIn(S, i, C) ==
  IF i > Len(S) \/ S[i] \notin C THEN i
  ELSE LET k == SelectInSubSeq(S, i, Len(S), LAMBDA c : c \notin C) IN
       IF k = 0 THEN Len(S) + 1 ELSE k
SkipUntil(S, i, C) ==
  IF i > Len(S) \/ S[i] \in C THEN i
  ELSE LET k == SelectInSubSeq(S, i, Len(S), LAMBDA c : c \in C) IN
       IF k = 0 THEN Len(S) + 1 ELSE k

\* the characters from i to j as one string
Text(S, i, j) == FoldLeft(LAMBDA a, c : a \o c, "", SubSeq(S, i, j))

\* line and column of a position: a newline is the last character of its line
PosOf(S, i) ==
  LET nl == {j \in 1..(i - 1) : S[j] = "\n"} IN
  [line |-> Cardinality(nl) + 1,
   col |-> i - FoldLeftDomain(LAMBDA a, j : IF j < i /\ S[j] = "\n" THEN j ELSE a, 0, S)]

Ok(p, v, f) == [ok |-> TRUE, p |-> p, v |-> v, f |-> f]
No(f) == [ok |-> FALSE, p |-> 0, v |-> <<>>, f |-> f]

Str(s) == [k |-> "str", s |-> s]
SeqNode(n) == [k |-> "seq", n |-> n]

-----------------------------------------------------------------------------
\* terminals

LineBreak(S, i) ==
  IF At(S, i) = "\n" THEN Ok(i + 1, <<>>, 0)
  ELSE IF At(S, i) = "\r" /\ At(S, i + 1) = "\n" THEN Ok(i + 2, <<>>, i)
  ELSE No(i)

String(S, i) ==
  LET e == SkipUntil(S, i, NotString) IN
  IF e > i THEN Ok(e, Str(Text(S, i, e - 1)), e)
  ELSE IF At(S, i) # "\\" THEN No(i)
  ELSE IF At(S, i + 1) \in {"\\", "{", "}"} THEN Ok(i + 2, Str(S[i + 1]), i)
  ELSE No(i + 1)

VerbatimString(S, i) ==
  LET e == SkipUntil(S, i, NotVerbatim) IN
  IF e > i THEN Ok(e, Str(Text(S, i, e - 1)), e)
  ELSE IF At(S, i) # "}" THEN No(i)
  ELSE IF At(S, i + 1) = "}" /\ At(S, i + 2) = "}" THEN No(i + 1)
  ELSE Ok(i + 1, Str("}"), i)

-----------------------------------------------------------------------------
\* NestedComment <- "{-" (NestedComment / !("{-" !'}') !"-}" .)* "-}"

OpensComment(S, i) == At(S, i) = "{" /\ At(S, i + 1) = "-"

RECURSIVE NestedComment(_, _), CommentRest(_, _, _)
NestedComment(S, i) == IF OpensComment(S, i) THEN CommentRest(S, i + 2, i) ELSE No(i)
\* within a comment, from i on; one within it which is not closed does not
\* leave it a chance either
CommentRest(S, i, f) ==
  LET c == NestedComment(S, i)
      f1 == MaxOf(f, c.f)
  IN
  IF c.ok THEN CommentRest(S, c.p, f1)
  ELSE IF OpensComment(S, i) /\ At(S, i + 2) # "}" THEN No(MaxOf(f1, i + 2))
  ELSE IF At(S, i) = "-" /\ At(S, i + 1) = "}" THEN Ok(i + 2, <<>>, MaxOf(f1, i))
  ELSE IF At(S, i) = "EOF" THEN No(MaxOf(f1, i))
  ELSE CommentRest(S, i + 1, f1)

RECURSIVE NestedComments(_, _, _)
NestedComments(S, i, f) ==
  LET c == NestedComment(S, i) IN
  IF c.ok THEN NestedComments(S, c.p, MaxOf(f, c.f)) ELSE Ok(i, <<>>, MaxOf(f, c.f))

\* Comment <- [ \t]* NestedComment
Comment(S, i) ==
  LET b == SkipIn(S, i, Blank)
      c == NestedComment(S, b)
  IN [c EXCEPT !.f = MaxOf(@, b)]

RECURSIVE Comments(_, _, _)
Comments(S, i, f) ==
  LET c == Comment(S, i) IN
  IF c.ok THEN Comments(S, c.p, MaxOf(f, c.f)) ELSE Ok(i, <<>>, MaxOf(f, c.f))

\* (NestedComment / [ \t]+ NestedComment+ &([ \t\r\n}] / !.))*
RECURSIVE InlineComments(_, _, _)
InlineComments(S, i, f) ==
  LET n == NestedComment(S, i)
      b == SkipIn(S, i, Blank)
      m == NestedComments(S, b, b)
      g == MaxOf(f, n.f)
  IN
  IF n.ok THEN InlineComments(S, n.p, g)
  ELSE IF b = i \/ m.p = b THEN Ok(i, <<>>, MaxOf(g, MaxOf(b, m.f)))
  ELSE IF At(S, m.p) \in Blank \union {"\r", "\n", "}"} THEN InlineComments(S, m.p, MaxOf(g, m.f))
  ELSE IF At(S, m.p) = "EOF" THEN Ok(m.p, <<>>, MaxOf(g, MaxOf(m.f, m.p)))
  ELSE Ok(i, <<>>, MaxOf(g, MaxOf(m.f, m.p)))

RECURSIVE CommentSpacing(_, _, _)
CommentSpacing(S, i, f) ==
  LET l == LineBreak(S, i) IN
  IF l.ok THEN CommentSpacing(S, l.p, MaxOf(f, l.f))
  ELSE LET c == Comment(S, i) IN
       IF c.ok THEN CommentSpacing(S, c.p, MaxOf(f, MaxOf(l.f, c.f)))
       ELSE Ok(i, <<>>, MaxOf(f, MaxOf(l.f, c.f)))

-----------------------------------------------------------------------------
\* the indentation of the first line is removed from every line
StripIndent(lines) ==
  IF lines = <<>> THEN <<>>
  ELSE LET skip == Len(lines[1].n[1].s)
           strip(l) ==
             LET ind == l.n[1].s
                 new == IF skip <= Len(ind) THEN SubSeq(ind, skip + 1, Len(ind)) ELSE ""
             IN [l EXCEPT !.n[1] = Str(new)]
       IN [j \in 1..Len(lines) |-> strip(lines[j])]

RECURSIVE Word(_, _), FirstWord(_, _), InterpolatedWord(_, _), Words(_, _, _, _), Invoke(_, _), Arguments(_, _, _, _),
          Argument(_, _), Arg(_, _), WrappedRest(_, _, _, _), WrappedLine(_, _),
          Interpolated(_, _), Paragraphs(_, _), ParagraphsRest(_, _, _, _),
          Paragraph(_, _), Lines(_, _, _, _), Line(_, _),
          PreformattedLines(_, _, _, _), VerbatimWords(_, _, _, _),
          VerbatimLines(_, _, _, _)

\* String / Invoke / Interpolated, with comments around
Word(S, i) ==
  LET c == NestedComments(S, i, 0)
      s == String(S, c.p)
      w == IF s.ok THEN s
           ELSE LET n == Invoke(S, c.p) IN
                IF n.ok THEN n ELSE
                LET p == Interpolated(S, c.p) IN [p EXCEPT !.f = MaxOf(p.f, n.f)]
      f == MaxOf(c.f, MaxOf(s.f, w.f))
  IN
  IF w.ok
  THEN LET d == InlineComments(S, w.p, f) IN Ok(d.p, w.v, d.f)
  ELSE No(f)

\* Comment* Word
InterpolatedWord(S, i) ==
  LET c == Comments(S, i, 0)
      w == Word(S, c.p)
  IN [w EXCEPT !.f = MaxOf(@, c.f)]

\* InlineComment* Word
FirstWord(S, i) ==
  LET c == InlineComments(S, i, 0)
      w == Word(S, c.p)
  IN [w EXCEPT !.f = MaxOf(@, c.f)]

Words(S, i, acc, f) ==
  LET w == Word(S, i) IN
  IF w.ok THEN Words(S, w.p, Append(acc, w.v), MaxOf(f, w.f)) ELSE Ok(i, acc, MaxOf(f, w.f))

Interpolated(S, i) ==
  IF At(S, i) # "{" THEN No(i)
  ELSE LET w == InterpolatedWord(S, i + 1)
           e == IF w.ok THEN w.p ELSE i + 1
           f == MaxOf(i, w.f)
       IN IF At(S, e) = "}"
          THEN Ok(e + 1, IF w.ok THEN w.v ELSE SeqNode(<<>>), f)
          ELSE No(MaxOf(f, e))

\* '\\' name:([a-z-]+) args:(Argument*)
Invoke(S, i) ==
  IF At(S, i) # "\\" THEN No(i)
  ELSE LET e == SkipIn(S, i + 1, NameChars) IN
       IF e = i + 1 THEN No(e)
       ELSE LET a == Arguments(S, e, <<>>, e)
                pos == PosOf(S, i)
            IN Ok(a.p, [k |-> "inv", fn |-> Text(S, i + 1, e - 1), args |-> a.v,
                        line |-> pos.line, col |-> pos.col], a.f)

Arguments(S, i, acc, f) ==
  IF At(S, i) # "{" THEN Ok(i, acc, MaxOf(f, i))
  ELSE LET a == Argument(S, i) IN
       IF a.ok THEN Arguments(S, a.p, Append(acc, a.v), MaxOf(f, a.f))
       ELSE Ok(i, acc, MaxOf(f, a.f))

Closes(S, i, n) == \A j \in 0..(n - 1) : At(S, i + j) = "}"
Opens(S, i, n) == \A j \in 0..(n - 1) : At(S, i + j) = "{"

VerbatimWords(S, i, acc, f) ==
  LET w == VerbatimString(S, i) IN
  IF w.ok THEN VerbatimWords(S, w.p, Append(acc, w.v), MaxOf(f, w.f))
  ELSE Ok(i, acc, MaxOf(f, w.f))

VerbatimLines(S, i, acc, f) ==
  LET b == SkipIn(S, i, Blank)
      w == VerbatimWords(S, b, <<>>, b)
      l == LineBreak(S, w.p)
      g == MaxOf(f, MaxOf(w.f, l.f))
  IN IF l.ok
     THEN VerbatimLines(S, l.p, Append(acc, SeqNode(<<Str(Text(S, i, b - 1))>> \o w.v)), g)
     ELSE Ok(i, acc, g)

PreformattedLines(S, i, acc, f) ==
  LET b == SkipIn(S, i, Blank)
      w == Words(S, b, <<>>, b)
      l == LineBreak(S, w.p)
      g == MaxOf(f, MaxOf(w.f, l.f))
  IN IF l.ok
     THEN PreformattedLines(S, l.p, Append(acc, SeqNode(<<Str(Text(S, i, b - 1))>> \o w.v)), g)
     ELSE Ok(i, acc, g)

\* LineBreak lines [ \t]* close
Block(S, i, lines, n) ==
  LET b == SkipIn(S, lines.p, Blank)
      f == MaxOf(lines.f, b)
  IN IF Closes(S, b, n) THEN Ok(b + n, [k |-> "pre", n |-> StripIndent(lines.v)], f) ELSE No(f)

VerbatimArg(S, i) ==
  IF ~Opens(S, i, 3) THEN No(i)
  ELSE LET l == LineBreak(S, i + 3) IN
       IF l.ok THEN LET r == Block(S, i, VerbatimLines(S, l.p, <<>>, l.f), 3) IN r
       ELSE LET w == VerbatimWords(S, i + 3, <<>>, i + 3) IN
            IF Closes(S, w.p, 3) THEN Ok(w.p + 3, SeqNode(w.v), w.f)
            ELSE No(MaxOf(w.f, w.p))

PreformattedArg(S, i) ==
  IF ~Opens(S, i, 2) THEN No(i)
  ELSE LET l == LineBreak(S, i + 2) IN
       IF l.ok THEN Block(S, i, PreformattedLines(S, l.p, <<>>, l.f), 2)
       ELSE No(i + 2)

Argument(S, i) ==
  LET v == VerbatimArg(S, i) IN
  IF v.ok THEN v ELSE
  LET p == PreformattedArg(S, i) IN
  IF p.ok THEN [p EXCEPT !.f = MaxOf(@, v.f)] ELSE
  LET a == Arg(S, i) IN [a EXCEPT !.f = MaxOf(@, MaxOf(v.f, p.f))]

\* (Word / Split)*
WrappedRest(S, i, acc, f) ==
  LET w == Word(S, i) IN
  IF w.ok THEN WrappedRest(S, w.p, Append(acc, w.v), MaxOf(f, w.f))
  ELSE LET l == LineBreak(S, i)
           g == MaxOf(f, MaxOf(w.f, l.f))
       IN IF ~l.ok THEN Ok(i, acc, g)
          ELSE LET b == SkipIn(S, l.p, Blank) IN
               WrappedRest(S, b, Append(acc, Str(" ")), MaxOf(g, b))

WrappedLine(S, i) ==
  LET w == FirstWord(S, i) IN
  IF ~w.ok THEN w
  ELSE LET r == WrappedRest(S, w.p, <<w.v>>, w.f) IN Ok(r.p, SeqNode(r.v), r.f)

Arg(S, i) ==
  IF At(S, i) # "{" THEN No(i)
  ELSE LET w == WrappedLine(S, i + 1)
           c == IF w.ok THEN w
                ELSE LET q == Paragraphs(S, i + 1) IN
                     IF q.ok
                     THEN LET b == SkipIn(S, q.p, Blank) IN Ok(b, q.v, MaxOf(q.f, b))
                     ELSE LET e == CommentSpacing(S, i + 1, 0) IN
                          Ok(e.p, Str(""), MaxOf(q.f, e.f))
           f == MaxOf(i, MaxOf(w.f, c.f))
       IN IF At(S, c.p) = "}" THEN Ok(c.p + 1, c.v, f) ELSE No(MaxOf(f, c.p))

Line(S, i) ==
  LET b == SkipIn(S, i, Blank)
      c == Comments(S, b, b)
      w == Words(S, c.p, <<>>, c.f)
  IN IF w.v = <<>> THEN No(w.f) ELSE Ok(w.p, SeqNode(w.v), w.f)

Lines(S, i, acc, f) ==
  LET l == Line(S, i) IN
  IF ~l.ok THEN Ok(i, acc, MaxOf(f, l.f))
  ELSE LET b == LineBreak(S, l.p)
           g == MaxOf(f, MaxOf(l.f, b.f))
       IN Lines(S, IF b.ok THEN b.p ELSE l.p, Append(acc, l.v), g)

Paragraph(S, i) ==
  LET l == Lines(S, i, <<>>, 0) IN
  IF l.v = <<>> THEN No(l.f) ELSE Ok(l.p, [k |-> "para", n |-> l.v], l.f)

ParagraphsRest(S, i, acc, f) ==
  LET p == Paragraph(S, i) IN
  IF ~p.ok THEN Ok(i, acc, MaxOf(f, p.f))
  ELSE LET c == CommentSpacing(S, p.p, MaxOf(f, p.f)) IN
       ParagraphsRest(S, c.p, Append(acc, p.v), c.f)

Paragraphs(S, i) ==
  LET c == CommentSpacing(S, i, 0)
      r == ParagraphsRest(S, c.p, <<>>, c.f)
  IN IF r.v = <<>> THEN No(r.f) ELSE Ok(r.p, SeqNode(r.v), r.f)

\* a whole document: [ok, v] or [ok |-> FALSE, line, col]
Parse(S) ==
  LET r == Paragraphs(S, 1) IN
  IF r.ok /\ r.p = Len(S) + 1 THEN [ok |-> TRUE, v |-> r.v]
  ELSE LET pos == PosOf(S, MaxOf(1, MaxOf(r.f, IF r.ok THEN r.p ELSE 0))) IN
       [ok |-> FALSE, line |-> pos.line, col |-> pos.col]
=============================================================================
