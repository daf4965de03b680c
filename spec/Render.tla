------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Rendering of the section tree: references, HTML as a sequence of        *)
(* tokens, plain text, the files written, and the search index.            *)
(*                                                                         *)
(* Tokens:  <<"t", text>>                        text                      *)
(*          <<"o", tag, attr, value, ...>>       start tag                 *)
(*          <<"c", tag>>                         end tag                   *)
(*          <<"raw", markup>>                    markup given as it is     *)
(* The value of an attribute named "ref" is a link within the site:        *)
(*          <<"o", "a", "ref", page, fragment, ...>>                       *)
(*                                                                         *)
(* A rendering is [t |-> tokens or text, e |-> error or NoErr].  The       *)
(* environment G is [secs, root, ext, broken (allowed), tmpl (set),        *)
(* active (references whose display is being rendered)].                   *)
(***************************************************************************)
EXTENDS Eval

R(t) == [t |-> t, e |-> NoErr]
E(t, e) == [t |-> t, e |-> e]
T(s) == R(<<<<"t", s>>>>)
Tok(x) == R(<<x>>)
Open(tag) == Tok(<<"o", tag>>)
Close(tag) == Tok(<<"c", tag>>)

FirstError(rs) ==
  LET bad == {i \in 1..Len(rs) : rs[i].e.k # "none"} IN
  IF bad = {} THEN NoErr ELSE rs[CHOOSE i \in bad : \A j \in bad : i <= j].e

\* one after another, up to the first error
Cat(rs) == LET e == FirstError(rs) IN
           IF e.k # "none" THEN [t |-> <<>>, e |-> e]
           ELSE [t |-> FlattenSeq([i \in 1..Len(rs) |-> rs[i].t]), e |-> NoErr]
CatText(rs) == LET e == FirstError(rs) IN
           IF e.k # "none" THEN [t |-> "", e |-> e]
           ELSE [t |-> Concat([i \in 1..Len(rs) |-> rs[i].t]), e |-> NoErr]

NoTemplate(name) == [k |-> "tmpl", msg |-> "template '" \o name \o ".tmpl' not found"]

-----------------------------------------------------------------------------
\* references: [ok, nolink, sec, anchor, title] or [ok |-> FALSE, e]

SecLoc(G, s, line, col) == [file |-> FilePath(G.secs, s), line |-> line, col |-> col, len |-> 0]

Resolve(G, r) ==
  LET found == FindTag(G.secs, r.sec, r.tag)
      loc == [file |-> FilePath(G.secs, r.sec), line |-> r.line, col |-> r.col, len |-> 10]
      broken == [ok |-> TRUE, link |-> TRUE, sec |-> r.sec, anchor |-> "broken",
                 title |-> Str("{broken reference: " \o r.tag \o "}")]
  IN
  IF Len(found) = 1
  THEN [ok |-> TRUE, link |-> TRUE, sec |-> found[1][1], anchor |-> found[1][2].anchor,
        title |-> found[1][2].title]
  ELSE IF found = <<>> /\ r.opt THEN [ok |-> TRUE, link |-> FALSE]
  ELSE IF G.broken THEN broken
  ELSE IF found = <<>>
  THEN [ok |-> FALSE, e |-> [k |-> "unknown", tag |-> r.tag,
          similar |-> LET s == SimilarTags(G.secs, r.sec, r.tag) IN [i \in 1..Len(s) |-> s[i][2].name]] @@ loc]
  ELSE [ok |-> FALSE, e |-> [k |-> "ambig", tag |-> r.tag,
          defs |-> [i \in 1..Len(found) |-> SecLoc(G, found[i][1], found[i][2].line, found[i][2].col)]] @@ loc]

RefOpen(G, s, anchor, rest) ==
  Tok(<<"o", "a", "ref", PageOf(G.secs, s, G.ext), FragmentOf(G.secs, s, anchor)>> \o rest)

-----------------------------------------------------------------------------
\* HTML

\* URLs with a scheme which may run code are not written to attributes
SafeUrl(u) ==
  LET cs == Chars(u)
      i == SelectInSeq(cs, LAMBDA c : c = ":")
      scheme == Concat([j \in 1..(i - 1) |-> LowerOf(cs[j])])
  IN IF i = 0 \/ Contains_(scheme, "/") \/ scheme \in {"http", "https", "mailto"} THEN u
     ELSE "#ZgotmplZ"

RECURSIVE Html(_, _), HtmlSection(_, _), HtmlToc(_, _)

Wrap(tag, attrs, inner) == Cat(<<Tok(<<"o", tag>> \o attrs), inner, Close(tag)>>)

HtmlSeq(G, n) == Cat([i \in 1..Len(n) |-> Html(G, n[i])])
\* lines, with a separator between
HtmlLines(G, n, sep) ==
  Cat([i \in 1..(2 * Len(n) - (IF n = <<>> THEN 0 ELSE 1)) |->
         IF i % 2 = 1 THEN Html(G, n[(i + 1) \div 2]) ELSE T(sep)])

PartOf(parts, name) == MapGet(parts, name)
\* templates take what is empty for what is not there
Shown(p) == ~(p.k = "nil" \/ (p.k = "str" /\ p.s = "") \/ (p.k \in {"seq", "para", "pre"} /\ p.n = <<>>))

HtmlStyled(G, c) ==
  LET in == Html(G, c.c) IN
  CASE c.style = "verbatim" -> Wrap(IF IsFlow(c) THEN "code" ELSE "pre", <<>>, in)
    [] c.style = "italic" -> Wrap("em", <<>>, in)
    [] c.style = "bold" -> IF G.tmpl = "style" THEN Wrap("b", <<"class", "over">>, in)
                           ELSE IF G.tmpl \in {"b1", "b2"} THEN Wrap("b", <<"class", G.tmpl>>, in)
                           ELSE IF G.tmpl = "fails" THEN E(<<>>, Plain("can't evaluate field Nope"))
                           ELSE Wrap("strong", <<>>, in)
    [] c.style = "larger" -> Wrap("span", <<"style", "font-size: 120%">>, in)
    [] c.style = "smaller" -> Wrap("span", <<"style", "font-size: 80%">>, in)
    [] c.style = "strike" -> Wrap("span", <<"style", "text-decoration: line-through">>, in)
    [] c.style = "superscript" -> Wrap("sup", <<>>, in)
    [] c.style = "subscript" -> Wrap("sub", <<>>, in)
    [] c.style = "inset" -> Wrap("div", <<"style", "margin: 0 2em 1em", "class", "inset">>, in)
    [] c.style = "aside" -> Wrap("blockquote", <<"class", "aside">>, in)
    [] c.style = "shout" /\ G.tmpl = "style" ->
         LET p == PartOf(c.parts, "Note") IN
         Wrap("span", <<"class", "shout">>,
              Cat(<<in>> \o IF ~Shown(p) THEN <<>> ELSE <<Wrap("i", <<>>, Html(G, p))>>))
    \* what is shown raw is the summary of the content
    [] c.style = "shout" /\ G.tmpl = "side" ->
         LET s == Summary(G.secs, c.c) IN
         Wrap("span", <<"class", "shout">>, Wrap("a", <<"href", s>>, Tok(<<"raw", s>>)))
    [] c.style \in {"code-block", "code-flow"} /\ G.tmpl = "code" ->
         LET lang == PartOf(c.parts, "Language")
             attrs == <<"class", "code", "data-language", lang.s>>
         IN IF c.block THEN Wrap("div", attrs, Wrap("pre", <<>>, in)) ELSE Wrap("code", attrs, in)
    [] c.style = "raw-html" /\ c.c.k = "str" -> T(c.c.s)  \* of the markup, the text
    [] OTHER -> E(<<>>, NoTemplate(c.style))

\* a reference within what it displays itself is an error
Displaying(G, r) == IF r.c.k # "nil" THEN G ELSE [G EXCEPT !.active = @ \cup {<<r.sec, r.tag>>}]
DisplaysItself(G, r) == r.c.k = "nil" /\ <<r.sec, r.tag>> \in G.active
ItselfError(r) == Plain("reference to tag '" \o r.tag \o "' displays itself")

HtmlRef(G0, r) ==
  LET res == Resolve(G0, r)
      G == Displaying(G0, r)
  IN
  IF DisplaysItself(G0, r) THEN E(<<>>, ItselfError(r))
  ELSE IF ~res.ok THEN E(<<>>, res.e)
  ELSE IF ~res.link THEN Html(G, StripAux(r.c))
  ELSE Cat(<<RefOpen(G, res.sec, res.anchor, <<>>),
             Html(G, StripAux(IF r.c.k # "nil" THEN r.c ELSE res.title)), Close("a")>>)

Html(G, c) ==
  CASE c.k = "str" -> T(c.s)
    [] c.k = "seq" -> HtmlSeq(G, c.n)
    [] c.k = "para" -> Wrap("p", <<>>, HtmlLines(G, c.n, " "))
    [] c.k = "pre" -> HtmlLines(G, c.n, "\n")
    [] c.k = "styled" -> HtmlStyled(G, c)
    [] c.k = "link" -> Wrap("a", <<"href", SafeUrl(c.target)>>, Html(G, c.c))
    [] c.k = "ref" -> HtmlRef(G, c)
    [] c.k = "target" -> Cat(<<Tok(<<"o", "a", "id", c.tag>>), Close("a")>>)
    [] c.k = "list" ->
         Wrap(IF c.ordered THEN "ol" ELSE "ul", <<>>,
              Cat([i \in 1..Len(c.n) |-> Wrap("li", <<>>, Html(G, c.n[i]))]))
    [] c.k = "table" ->
         Wrap("table", <<>>, Cat([i \in 1..Len(c.rows) |->
           Wrap("tr", <<>>, Cat([j \in 1..Len(c.rows[i]) |-> Wrap("td", <<>>, Html(G, c.rows[i][j]))]))]))
    [] c.k = "defs" ->
         Wrap("dl", <<>>, Cat([i \in 1..Len(c.n) |->
           Cat(<<Wrap("dt", <<>>, Html(G, c.n[i][1])), Wrap("dd", <<>>, Html(G, c.n[i][2]))>>)]))
    [] c.k = "image" -> Tok(<<"o", "img", "src", SafeUrl(c.path), "alt", c.desc>>)
    [] c.k = "toc" -> HtmlToc(G, c.sec)
    [] c.k = "aux" -> Html(G, c.c)
    [] c.k = "lazy" -> IF c.fails THEN E(<<>>, Plain("lazy render: " \o c.err)) ELSE Html(G, c.c)

HtmlToc(G, s) ==
  LET sec == G.secs[s] IN
  IF sec.children = <<>> \/ sec.omit THEN R(<<>>)
  ELSE Wrap("nav", <<>>, Wrap("ul", <<>>,
         Cat([i \in 1..Len(sec.children) |->
           LET ch == sec.children[i] IN
           Wrap("li", <<>>, Cat(<<
             RefOpen(G, ch, "", <<>>), T(Number(G.secs, ch) \o " "),
             Html(G, StripAux(G.secs[ch].title)), Close("a"), HtmlToc(G, ch)>>))])))

HtmlChildren(G, s) ==
  IF G.secs[s].split THEN R(<<>>)
  ELSE Cat([i \in 1..Len(G.secs[s].children) |-> HtmlSection(G, G.secs[s].children[i])])

HtmlSection(G, s) ==
  LET sec == G.secs[s]
      h == "h" \o Num(HeaderLevel(G.secs, s))
  IN
  IF sec.style = "" THEN
    Cat(<<Wrap(h, <<"class", "section-header">>,
            Cat(<<Tok(<<"o", "a", "id", sec.ptag>>), Close("a"),
                  IF sec.parent = 0 THEN R(<<>>)
                  ELSE Wrap("span", <<"class", "section-number">>, T(Number(G.secs, s) \o " ")),
                  Html(G, sec.title)>>)),
          Html(G, sec.body), HtmlChildren(G, s)>>)
  ELSE IF sec.style \in {"fancy", "plain"} /\ G.tmpl = "style" THEN
    LET p == PartOf(sec.parts, "Intro") IN
    Wrap("section", <<"class", sec.style>>,
      Cat(<<Wrap("h1", <<>>, Html(G, sec.title)),
            IF ~Shown(p) THEN R(<<>>) ELSE Wrap("header", <<>>, Html(G, p)),
            Html(G, sec.body), HtmlChildren(G, s)>>))
  ELSE E(<<>>, NoTemplate(sec.style))

NavLink(G, class, s) ==
  IF s = 0 THEN R(<<>>)
  ELSE Cat(<<RefOpen(G, s, "", <<"class", class>>), Html(G, StripAux(G.secs[s].title)), Close("a")>>)

\* what templates are told: the tree of sections, as seen from the page of s
RECURSIVE SideBranch(_, _, _), SideAnchors(_, _)
SideBranch(G, current, s) ==
  LET sec == G.secs[s] IN
  Wrap("div", <<"class",
      (IF sec.ptag = G.secs[current].ptag THEN "self " ELSE "")
      \o (IF InTree(G.secs, s, current) THEN "open " ELSE "")
      \o (IF Near(G.secs, s, current) THEN "near " ELSE "")
      \o (IF sec.split THEN "split " ELSE "")
      \o "d" \o Num(Depth(G.secs, s)) \o " p" \o Num(PageDepth(G.secs, s)) \o " h" \o Num(HeaderLevel(G.secs, s))>>,
    Cat(<<T(Number(G.secs, s) \o " "), Html(G, StripAux(sec.title))>>
        \o [i \in 1..Len(sec.children) |-> SideBranch(G, current, sec.children[i])]))

SideAnchors(G, s) ==
  LET sec == G.secs[s]
      own == SelectSeq(sec.tags, LAMBDA t : t.anchor # "")
      below == IF sec.split THEN <<>> ELSE SelectSeq(sec.children, LAMBDA x : HasAnchors(G.secs, x))
  IN Cat([i \in 1..Len(own) |->
            Wrap("li", <<"class", own[i].name>>,
                 Cat(<<RefOpen(G, s, own[i].anchor, <<>>), Html(G, own[i].title), Close("a")>>))]
         \o [i \in 1..Len(below) |-> Wrap("li", <<>>, Wrap("ol", <<>>, SideAnchors(G, below[i])))])

SideBar(G, s) ==
  LET up == Ancestors(G.secs, s)
      top == up[Len(up)]
      tops == G.secs[top].children
      parent == G.secs[s].parent
  IN Cat(<<
       Wrap("ul", <<"class", "tops">>, Cat([i \in 1..Len(tops) |->
         Wrap("li", <<"class", (IF InTree(G.secs, tops[i], s) THEN "in" ELSE "out") \o
                               (IF Near(G.secs, tops[i], s) THEN " near" ELSE " far")>>,
              Cat(<<RefOpen(G, tops[i], "", <<>>), Html(G, StripAux(G.secs[tops[i]].title)), Close("a")>>))])),
       IF parent = 0 THEN R(<<>>)
       ELSE Cat(<<RefOpen(G, parent, "", <<"class", "up">>), Html(G, StripAux(G.secs[parent].title)), Close("a")>>),
       SideBranch(G, s, top),
       IF ~HasAnchors(G.secs, s) THEN R(<<>>) ELSE Wrap("ol", <<"class", "anchors">>, SideAnchors(G, s))>>)

\* a whole page
HtmlPage(G, s) ==
  LET sec == G.secs[s]
      head == Wrap("head", <<>>, Cat(<<
                Tok(<<"o", "meta", "http-equiv", "content-type", "content", "text/html; charset=utf-8">>),
                Wrap("title", <<>>, T(Summary(G.secs, sec.title)))>>))
  IN
  IF G.tmpl = "style" /\ sec.style = "fancy" THEN
    Wrap("html", <<>>, Wrap("body", <<"class", "fancy">>, HtmlSection(G, s)))
  ELSE IF G.tmpl = "nav" THEN
    Wrap("html", <<>>, Cat(<<Wrap("head", <<>>, Wrap("title", <<>>, T(Summary(G.secs, sec.title)))),
      Wrap("body", <<>>, Cat(<<
        Wrap("nav", <<"class", "nav">>, Cat(<<
          NavLink(G, "prev", PrevSection(G.secs, s)), NavLink(G, "next", NextSection(G.secs, s)),
          NavLink(G, "top", Ancestors(G.secs, s)[Len(Ancestors(G.secs, s))])>>)),
        HtmlSection(G, s)>>))>>))
  ELSE IF G.tmpl = "side" THEN
    Wrap("html", <<>>, Cat(<<Wrap("head", <<>>, R(<<>>)),
      Wrap("body", <<"class", IF sec.parent = 0 THEN "top" ELSE "sub">>, Cat(<<SideBar(G, s), HtmlSection(G, s)>>))>>))
  ELSE Wrap("html", <<>>, Cat(<<head, Wrap("body", <<>>, HtmlSection(G, s))>>))

-----------------------------------------------------------------------------
\* plain text; only some kinds of content have a built-in template

RECURSIVE Txt(_, _), TxtSection(_, _), TxtToc(_, _)

TX(s) == [t |-> s, e |-> NoErr]
TxtLines(G, n, sep) ==
  CatText([i \in 1..(2 * Len(n) - (IF n = <<>> THEN 0 ELSE 1)) |->
             IF i % 2 = 1 THEN Txt(G, n[(i + 1) \div 2]) ELSE TX(sep)])
Around(l, x, r) == CatText(<<TX(l), x, TX(r)>>)
JoinLines(s, prefix) == JoinWith(Split(s, "\n"), "\n" \o prefix)

TxtUrl(G, s, anchor) ==
  LET f == FragmentOf(G.secs, s, anchor) IN
  PageOf(G.secs, s, G.ext) \o (IF f = "" THEN "" ELSE "#" \o f)

AsHtml(G) == [G EXCEPT !.ext = "html"]

Txt(G, c) ==
  LET custom == G.tmpl \in {"txt", "tside"}
      missing(name) == [t |-> "", e |-> NoTemplate(name)]
  IN
  CASE c.k = "str" -> TX(c.s)
    [] c.k = "seq" -> CatText([i \in 1..Len(c.n) |-> Txt(G, c.n[i])])
    [] c.k = "para" -> CatText(<<TxtLines(G, c.n, " "), TX("\n\n")>>)
    [] c.k = "pre" -> TxtLines(G, c.n, "\n")
    [] c.k = "toc" -> TxtToc(G, c.sec)
    [] c.k = "aux" -> Txt(G, c.c)
    [] c.k = "lazy" -> IF c.fails THEN [t |-> "", e |-> Plain("lazy render: " \o c.err)] ELSE Txt(G, c.c)
    [] c.k = "styled" /\ c.style = "inset" ->
         LET x == Txt(G, c.c) IN IF x.e.k # "none" THEN x ELSE TX("    " \o JoinLines(x.t, "    "))
    [] c.k = "styled" /\ G.tmpl = "tside" /\ c.style = "bold" ->
         LET x == Txt(G, c.c) IN IF x.e.k # "none" THEN x ELSE TX(">" \o JoinLines(x.t, ">"))
    [] c.k = "styled" /\ custom /\ c.style = "bold" -> Around("*", Txt(G, c.c), "*")
    [] c.k = "styled" /\ custom /\ c.style = "italic" -> Around("_", Txt(G, c.c), "_")
    [] c.k = "styled" /\ custom /\ c.style = "verbatim" -> Around("`", Txt(G, c.c), "`")
    [] c.k = "styled" -> missing(c.style)
    [] c.k = "link" -> IF ~custom THEN missing("link")
                       ELSE CatText(<<TX("["), Txt(G, c.c), TX("](" \o c.target \o ")")>>)
    [] c.k = "ref" ->
         IF ~custom THEN missing("reference")
         ELSE IF DisplaysItself(G, c) THEN [t |-> "", e |-> ItselfError(c)]
         ELSE LET res == Resolve(G, c) IN
              IF ~res.ok THEN [t |-> "", e |-> res.e]
              ELSE IF ~res.link THEN Txt(G, StripAux(c.c))
              ELSE CatText(<<TX("["), Txt(Displaying(G, c), StripAux(IF c.c.k # "nil" THEN c.c ELSE res.title)),
                             TX("](" \o TxtUrl(G, res.sec, res.anchor)),
                             TX(IF G.tmpl = "tside" THEN " " \o TxtUrl(AsHtml(G), res.sec, res.anchor) \o ")" ELSE ")")>>)
    [] c.k = "target" -> IF custom THEN TX("") ELSE missing("target")
    [] c.k = "list" ->
         IF custom THEN CatText([i \in 1..Len(c.n) |-> Around("* ", Txt(G, c.n[i]), "\n")]) ELSE missing("list")
    [] c.k = "image" ->
         IF custom THEN TX("![" \o c.desc \o "](" \o c.path \o ")") ELSE missing("image")
    [] c.k = "table" -> missing("table")
    [] c.k = "defs" -> missing("definitions")

TxtToc(G, s) ==
  LET sec == G.secs[s] IN
  IF sec.children = <<>> \/ sec.omit THEN TX("")
  ELSE Around("\n", CatText([i \in 1..Len(sec.children) |->
         LET ch == sec.children[i] IN
         CatText(<<TX("\n" \o Number(G.secs, ch) \o " "), Txt(G, StripAux(G.secs[ch].title)),
                   TX("\n\n"), TxtToc(G, ch), TX("\n")>>)]), "\n")

TxtSection(G, s) ==
  LET sec == G.secs[s]
      kids == IF sec.split THEN TX("")
              ELSE Around("\n", CatText([i \in 1..Len(sec.children) |->
                                  Around("\n", TxtSection(G, sec.children[i]), "\n")]), "\n")
  IN
  IF sec.style = "" /\ G.tmpl = "tside" THEN
    CatText(<<TX("<" \o IF sec.parent = 0 THEN "" ELSE Number(G.secs, s) \o " "), Txt(G, sec.title), TX("|"), Txt(G, sec.body)>>
            \o (IF sec.split THEN <<>> ELSE [i \in 1..Len(sec.children) |-> TxtSection(G, sec.children[i])]) \o <<TX(">")>>)
  ELSE IF sec.style = "" THEN
    CatText(<<TX(IF sec.parent = 0 THEN "" ELSE Number(G.secs, s) \o " "), Txt(G, sec.title),
              TX("\n\n"), Txt(G, sec.body), TX("\n\n"), kids>>)
  ELSE IF sec.style \in {"fancy", "plain"} /\ G.tmpl = "txt" THEN
    LET p == PartOf(sec.parts, "Intro") IN
    CatText(<<TX("<" \o sec.style \o ">"), Txt(G, sec.title), TX("|"),
              IF ~Shown(p) THEN TX("") ELSE Txt(G, p), TX("|"), Txt(G, sec.body), kids,
              TX("</" \o sec.style \o ">")>>)
  ELSE [t |-> "", e |-> NoTemplate(sec.style)]

RECURSIVE TxtBranch(_, _)
TxtBranch(G, s) ==
  LET sec == G.secs[s] IN
  CatText(<<TX("(" \o Num(Depth(G.secs, s)) \o " " \o Num(PageDepth(G.secs, s)) \o " " \o Number(G.secs, s) \o " "),
            Txt(G, StripAux(sec.title)), TX(" " \o TxtUrl(G, s, "") \o " " \o TxtUrl(AsHtml(G), s, ""))>>
          \o [i \in 1..Len(sec.children) |-> TxtBranch(G, sec.children[i])] \o <<TX(")")>>)
TxtSide(G, s) ==
  LET sec == G.secs[s]
      own == SelectSeq(sec.tags, LAMBDA t : t.anchor # "")
      below == SelectSeq(sec.children, LAMBDA x : HasAnchors(G.secs, x))
  IN CatText(<<TxtBranch(G, s), TX(IF sec.parent = 0 THEN "" ELSE "^" \o TxtUrl(G, sec.parent, ""))>>
             \o (IF ~HasAnchors(G.secs, s) THEN <<>>
                 ELSE [i \in 1..Len(own) |->
                        TX("[" \o own[i].name \o " " \o TxtUrl(G, s, own[i].anchor) \o " " \o TxtUrl(AsHtml(G), s, own[i].anchor) \o "]")]
                      \o [i \in 1..Len(below) |-> TX("+" \o G.secs[below[i]].ptag)])
             \o <<TX("|")>>)

TxtPage(G, s) ==
  IF G.tmpl = "txt" /\ G.secs[s].style = "fancy" THEN Around("fancy page: ", TxtSection(G, s), "")
  ELSE IF G.tmpl = "tside" THEN CatText(<<TxtSide(G, s), TxtSection(G, s)>>)
  ELSE CatText(<<TX(Summary(G.secs, G.secs[s].title)), TX("\n\n"), TxtSection(G, s)>>)

-----------------------------------------------------------------------------
Page(G, s) == IF G.engine = "text" THEN TxtPage(G, s) ELSE HtmlPage(G, s)

\* the sections below s which are written to a page of their own, in order
PagesFrom(G, s) == SelectSeq(Below(G.secs, s), LAMBDA x : OwnPage(G.secs, x))

\* the site: the pages, in the order in which they are written, up to the first
\* that fails
Site(G, s) ==
  LET ps == PagesFrom(G, s)
      \* pages are files of the output directory
      rs == [i \in 1..Len(ps) |-> IF Contains_(G.secs[ps[i]].ptag, "/")
                                  THEN E(<<>>, Plain("no such file or directory"))
                                  ELSE Page(G, ps[i])]
      e == FirstError(rs)
  IN [e |-> e,
      pages |-> IF e.k # "none" THEN <<>>
                ELSE [i \in 1..Len(ps) |->
                       [sec |-> ps[i], name |-> G.secs[ps[i]].ptag \o "." \o G.ext, out |-> rs[i].t]]]

\* the search index: one entry by tag name, the last one in document order
IndexEntries(G) ==
  LET order == Below(G.secs, G.root)
      one(s, t) == [name |-> t.name, page |-> PageOf(G.secs, s, G.ext),
                    frag |-> FragmentOf(G.secs, s, t.anchor),
                    title |-> Summary(G.secs, t.title),
                    text |-> Summary(G.secs, IF t.c.k = "nil" THEN G.secs[s].body ELSE t.c),
                    depth |-> Depth(G.secs, s), section |-> G.secs[s].ptag]
      all == FlattenSeq([i \in 1..Len(order) |->
               [j \in 1..Len(G.secs[order[i]].tags) |-> one(order[i], G.secs[order[i]].tags[j])]])
  IN [i \in {j \in 1..Len(all) : \A k \in (j + 1)..Len(all) : all[k].name # all[j].name} |-> all[i]]
Index(G) == LET m == IndexEntries(G)
                keys == SetToSortSeq(DOMAIN m, LAMBDA x, y : x < y)
            IN [i \in 1..Len(keys) |-> m[keys[i]]]
=============================================================================
