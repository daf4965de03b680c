package main

import "slices"

// pieces of section trees
var (
	secPiece    = opener("\\section{\n\\title{S#}{s#}\n\n", "}\n\n", "sec", "", "sec")
	splitPiece  = leaf("\\split-sections\n\n", "", "sec")
	singlePiece = leaf("\\single-page\n\n", "", "sec")
	tocPiece    = leaf("\\table-of-contents\n\n", "", "sec")
	omitPiece   = leaf("\\omit-children-from-table-of-contents\n\n", "", "sec")
	textPiece   = leaf("text #\n\n", "", "sec")
)

const head = "\\title{T}{t}\n\n"
const headTP = "\\title{T}{t}\n\n\\use-plugin{tp}\n\n"

// fnPiece is a function with a content argument, of which more can be given if
// it is a list.
func fnPiece(name string) Piece { return opener("\\"+name+"{", "}", "fn") }

// plans are the spaces of documents that are explored completely, and large
// documents.
func plans(id string, quick bool) []*Plan {
	ps := boundedPlans(id, quick)
	if len(ps) > 0 {
		ps = append(ps, large(ps[0]))
	}
	return ps
}

func boundedPlans(id string, quick bool) []*Plan {
	// deeper in a thorough run
	m := func(q, t int) int {
		if quick {
			return q
		}
		return t
	}
	switch id {
	case "C01":
		return []*Plan{
			plan("characters", m(4, 5), "", "",
				leaf("a"), leaf(" "), leaf("\n"), leaf("{"), leaf("}"), leaf("\\b"), leaf("\\\\"), leaf("{-"), leaf("-}")).with("tree", "html"),
			plan("argument", m(4, 6), "\\use-plugin{tp}\n\n\\echo{", "}z\n",
				leaf("a"), leaf(" "), leaf("\n"), leaf("\t"), opener("{", "}", "i"), leaf("\\raw{b\nc}"), closer()).with("tree", "html"),
			plan("arguments", m(3, 5), "\\use-plugin{tp}\n\nx \\raws{s}", " y\n",
				leaf("{a}"), leaf("{}"), leaf("{\n}"), leaf("{\nb\n}"), leaf("{{\nc\n}}"), leaf("{{{d}}}"), leaf("{{{\ne}\n}}}"), leaf("{\n\nf\n\ng}"), leaf("{{h}}")).with("tree", "html"),
		}
	case "C02":
		return []*Plan{
			plan("verbatim", m(5, 7), "\\code{{{", "}}}\n",
				leaf("a"), leaf(" "), leaf("\n"), leaf("}"), leaf("{"), leaf("\\b{-")).with("tree pages", "html"),
			plan("preformatted", m(4, 6), "\\code{{\n", "}}\n",
				leaf("a"), leaf("  "), leaf("\n"), leaf("\t"), opener("\\code{{\n", "}}", "p"), closer(), leaf("\\{")).with("tree pages", "html"),
		}
	case "C03":
		return []*Plan{
			plan("comments", m(5, 6), "", "",
				leaf("a"), leaf(" "), leaf("\n"), leaf("{-"), leaf("-}"), leaf("\\italic{b}")).with("tree pages index", "html"),
			plan("comments in arguments", m(4, 6), "\\italic{", "}c",
				leaf("a"), leaf(" "), leaf("\n"), opener("{-", "-}", "c"), leaf("\\"), closer(), leaf("{")).with("tree pages index", "html"),
		}
	case "C04":
		return []*Plan{
			plan("line endings", m(4, 6), "", "",
				leaf("a"), leaf("\r\n"), leaf("\n"), leaf("  "), opener("\\code{{", "}}", "p"), opener("\\bold{", "}", "b"), closer()).with("tree pages", "html"),
		}
	case "C05":
		return []*Plan{
			plan("plugins and calls", m(4, 5), "\\use-plugin{tp}\n", "",
				leaf("\\use-plugin{tp}\n"), leaf("\\use-plugin{tq}\n"), leaf("\\echo{e#}\n"), leaf("\\text{t#}\n"), leaf("\\bold{b#}\n"), leaf("\\only-q{o}\n"),
				opener("\\section{\n", "}\n", "sec"), closer()).with("tree", "html"),
			plan("arguments", m(4, 5), "\\use-plugin{tp}\n\n\\list{\\", "}{z}\n",
				leaf("text"), leaf("strs"), leaf("pair"), leaf("three"), leaf("{a#}"), leaf("{\\note{b#}}"), leaf("{\\text{c#}d}")).with("tree", "html"),
			plan("content as strings", m(3, 4), "\\title{T}{t}\n\n\\use-plugin{tp}\n\n", "",
				opener("\\text{", "}", "fn"), opener("\\fine{", "}", "fn"), opener("\\code{", "}", "fn"), opener("\\aux{", "}", "fn"), opener("\\lazy{", "}", "fn"),
				opener("\\list{", "}", "list"), leaf("}{", "list"), opener("\\link{", "}{u}", "fn"), opener("\\reference{t}{", "}", "fn"), opener("\\target{a#}{b}{", "}", "fn"), opener("\\text{{\n", "\n}}", "fn"),
				leaf("\\reference{t}"), leaf("\\nothing"), leaf("\\image{p}{d}"), leaf("\\table{\\list{x}{y}}"), leaf("\\table-of-contents"), leaf("a#"), leaf("\n"), closer()).with("tree", "html"),
		}
	case "C06":
		return []*Plan{
			plan("reused content", m(4, 5), headTP, "",
				leaf("a# "), leaf("\\remember{m}{r# \\bold{x#}}"), leaf("\\recall{m}"), leaf("\\extend{m}{e#}"),
				leaf("\\remember{m}{\\extend{m}{k#}}"), leaf("\\nothing"), leaf("\n\n"), opener("\\echo{", "}", "fn"), closer()).with("tree pages index stripped", "html"),
			plan("nested content", m(2, 3), headTP, "", nested("a#", true)...).with("tree pages index", "html"),
		}
	case "C07":
		return []*Plan{
			plan("failures", m(4, 5), headTP, "",
				leaf("\\fail{f#}"), leaf("\\note{n#}"), opener("\\nope{", "}", "fn"), leaf("\\bold"), leaf("\\text{\\fail-both{g#}}"),
				opener("\\list{", "}", "list"), leaf("}{", "list"), opener("\\section{", "}", "sec"), leaf("\n\n"), closer()).with("", "html"),
			plan("failures of rendering", m(3, 4), headTP, "",
				leaf("\\lazy-fail{f#}"), leaf("\\reference{nope}"), leaf("\\style{nope}{x}"), leaf("\\definitions{\\list{x}{y}{z}}"), leaf("\\split-sections\n\n", "", "sec"), leaf("ok"),
				opener("\\bold{", "}", "b"), opener("\n\n\\section{\n\\title{S#}{s#}\n\n", "}\n\n", "sec"), leaf("\\title{u}{u}"), closer()).with("pages", "html", "text/txt"),
		}
	case "C08":
		return []*Plan{
			plan("places of errors", m(4, 5), "\\use-plugin{tp}\n", "",
				leaf("\\fail{f}"), leaf("é"), leaf("\n"), leaf("\\bold"), leaf(" "), opener("\\list{", "}", "list"), leaf("}{", "list"),
				opener("\\section{", "}", "sec"), leaf("\\reference{nope}"), closer()).with("", "html"),
			plan("places of parse errors", m(4, 5), "", "",
				leaf("é"), leaf("\n"), leaf("\r\n"), leaf("{"), leaf("}"), leaf("\\b{"), leaf("{{\n"), leaf("-}"), leaf("\\!")).with("", "html"),
			plan("titles and tags", m(4, 5), "", "",
				leaf("\\title{A}{t}"), leaf("\\target{t}"), leaf("\\reference{t}"), leaf("\n"), leaf("b "), opener("\\section{", "}", "sec"), closer(), leaf("\\title{\\bold{x}}")).with("", "html"),
		}
	case "C09":
		p := plan("sections", m(4, 5), "\\title{T}\n\n", "",
			opener("\\section{\n", "}\n\n", "sec"), closer(), leaf("\\include-section{d/f.lit}\n\n"), leaf("\\title{A}{a#}\n\n"), leaf("\\use-plugin{tp}\n\n"), leaf("\\note{n#}"),
			opener("\\list{", "}", "list"), leaf("\\set-partial{P}{p#}\\styled{plain}\n\n")).with("tree", "html/style")
		p.file("d/f.lit", "\\title{F}\n\n\\section{\\title{G} \\include-section{g.lit}}\n").file("d/g.lit", "\\title{H}\n\n\\include-section{../main.lit}\n").file("g.lit", "\\title{wrong}\n")
		q := plan("including", m(4, 5), "\\title{T}\n\n", "",
			opener("\\section{\n", "}\n\n", "sec"), closer(), leaf("\\include-section{d/f.lit}\n\n"), leaf("\\include-section{f.lit}\n\n"), leaf("\\title{A}{a#}\n\n"), leaf("\\note{n}"), leaf("\\use-plugin{tp}\n\n")).with("tree", "html")
		q.file("d/f.lit", "\\title{F}\n\n\\section{\\title{G}\n\n\\include-section{g.lit}}\n").file("d/g.lit", "\\title{H}\n\n\\include-section{../f.lit}").file("f.lit", "\\title{E}\n\n\\omit-children-from-table-of-contents\n")
		return []*Plan{p, q}
	case "C10":
		return []*Plan{
			plan("characters of titles", m(3, 5), "\\title{x", "y}\n\n",
				leaf(" "), leaf("&"), leaf("A"), leaf("é"), leaf("-"), leaf("_"), leaf("."), leaf("\n"), leaf("1"), leaf("\u00a0")).with("tree", "html"),
			plan("titles", m(4, 5), "\\use-plugin{tp}\n\n", "",
				leaf("\\title{A b}"), leaf("\\title{\\aux{c}}"), leaf("\\title{}"), leaf("\\title{D}{e#}{f#}"), leaf("\\title{\\nothing}"), leaf("\\title{G\\aux{h}}"), leaf("\n\n"),
				opener("\\section{", "}", "sec"), closer()).with("tree", "html"),
			plan("content of titles", m(2, 3), "\\use-plugin{tp}\n\n\\title{", "}\n\ntext", nested("A & b", false)...).with("tree pages", "html"),
		}
	case "C11":
		return []*Plan{
			plan("tags and references", m(4, 6), "\\title{T}{t}\n\n", "",
				leaf("\\target{a}\n\n"), leaf("\\reference{a}\n\n"), leaf("\\reference{b}{x}\n\n"), leaf("\\reference{a}{x}{y}\n\n"), opener("\\section{\n\\title{B}{b}\n\n", "}\n\n", "sec"),
				opener("\\section{\n\\title{C#}\n\n", "}\n\n", "sec"), leaf("\\split-sections\n\n"), closer()).with("pages", "html"),
			plan("targets within content", m(2, 3), headTP, "\n\n\\reference{a}\n", nested("\\target{a}", true)...).with("pages", "html"),
			plan("references within content", m(2, 3), "\\title{T}{t}\n\n\\use-plugin{tp}\n\n\\target{a}{A title}\n\n", "", nested("\\reference{a}", true)...).with("pages", "html"),
		}
	case "C12":
		return []*Plan{
			plan("sites", m(4, 5), "\\title{T}{t}\n\n", "",
				secPiece, closer(), splitPiece, tocPiece, leaf("\\reference{s1}"), leaf("\\reference{s2}"), leaf("\\reference{a}"), leaf("\\target{a}")).with("pages index", "html/nav"),
		}
	case "C13":
		return []*Plan{
			plan("sections", m(6, 8), head, "", secPiece, closer(), splitPiece, singlePiece).with("tree pages", "html/nav"),
			plan("one page after all", m(6, 8), head, "", secPiece, closer(), leaf("\\split-sections\n\n\\section{\\title{X#}{x#} y}\n\n", "", "sec"), singlePiece).with("tree pages", "html"),
			plan("sections as text", m(5, 7), head, "", secPiece, closer(), splitPiece, singlePiece).with("tree pages", "text"),
			plan("deep sections", m(11, 13), head, "", secPiece, closer().costs(3), splitPiece.costs(2)).with("tree pages", "html"),
		}
	case "C14":
		return []*Plan{
			plan("contents", m(5, 7), head, "", secPiece, closer(), tocPiece, omitPiece, splitPiece).with("tree pages", "html"),
			plan("contents as text", m(5, 6), head, "", secPiece, closer(), tocPiece, omitPiece, splitPiece).with("tree pages", "text"),
			plan("titles in contents", m(2, 3), "\\title{T}{t}\n\n\\use-plugin{tp}\n\n\\table-of-contents\n\n\\section{\n\\title{", "}{s}\n\nx\n}\n", nested("A\\aux{b}", false)...).with("pages", "html"),
		}
	case "C15":
		return []*Plan{
			plan("aux within content", m(3, 4), "\\use-plugin{tp}\n\n\\title{T}{t}\n\n\\table-of-contents\n\n\\reference{s}\n\n\\section{\n\\title{", "}{s}\n\ny\n}\n", aux()...).with("pages stripped tree", "html"),
			plan("aux in titles", m(4, 6), "\\title{", "}\n\ntext\n", leaf("a"), leaf(" "), leaf("&"), opener("\\aux{", "}", "aux"), opener("\\bold{", "}", "b"), closer()).with("tree pages", "html"),
		}
	case "C16":
		return []*Plan{
			plan("sections", m(8, 10), head, "", secPiece, closer(), splitPiece).with("tree pages", "html/nav"),
			plan("groups of sections", m(5, 6), head+"\\split-sections\n\n", "",
				opener("\\section{\n\\title{S#}{s#}\n\n\\split-sections\n\n", "}\n\n", "sec", "", "sec"), secPiece, closer(),
				leaf("\\section{\n\\title{A#}{a#}\n}\n\n\\section{\n\\title{B#}{b#}\n}\n\n\\section{\n\\title{C#}{c#}\n}\n\n", "", "sec"),
				leaf("\\section{\n\\title{D#}{d#}\n\n\\split-sections\n\n\\section{\n\\title{E#}{e#}\n}\n}\n\n", "", "sec")).with("tree pages", "html/nav"),
		}
	case "C17":
		return []*Plan{
			plan("characters", m(3, 4), "\\title{", "}{t}\n\n\\code{{{\nx}}}\n", leaf("<"), leaf(">"), leaf("&"), leaf("\""), leaf("'"), leaf("/"), leaf("b"), leaf(";"), leaf("="), leaf("-"), leaf("!"), leaf("\\code{<}")).with("pages", "html", "html/nav"),
			plan("text within content", m(2, 3), headTP, "", nested("<i>&amp;\"'", true)...).with("pages", "html"),
			plan("tags", m(2, 3), "\\title{T}{t}\n\n\\table-of-contents\n\n\\section{\n\\title{S}{a", "}\n}\n", tagged()...).with("pages", "html", "html/nav"),
			plan("tags of pages", m(2, 3), "\\title{T}{t}\n\n\\split-sections\n\n\\table-of-contents\n\n\\section{\n\\title{S}{", "}\n\n\\target{b}\n}\n\n\\reference{b}\n", tagged("/")...).with("pages", "html", "html/nav"),
			plan("targets of links", m(3, 4), "\\title{T}{t}\n\n\\link{x}{", "}\n", leaf("<"), leaf("\""), leaf("'"), leaf(" "), leaf("&"), leaf("%"), leaf("?"), leaf("#1"), leaf("é"), leaf(":"), leaf("javascript:"), leaf("/")).with("pages", "html"),
			plan("paths of images", m(3, 4), "\\title{T}{t}\n\n\\image{", "}{<\"}\n", leaf("<"), leaf("\""), leaf("'"), leaf(" "), leaf("&"), leaf("%"), leaf("?"), leaf("#1"), leaf("é"), leaf(":"), leaf("javascript:"), leaf("/")).with("pages", "html"),
			plan("errors", m(3, 4), headTP, "",
				leaf("\\fail{<i>&amp;</i>}"), leaf("\\reference{<i>&lt;}"), leaf("\\style{<i>&lt;}{x}"), leaf("<i>&\"'"), leaf("\\include-section{<i>.lit}"), leaf("\\use-plugin{<i>&}"), leaf("\\target{<i>&lt;}"), leaf("\\set-partial{<i>}{x}"), leaf("\\styled{<i>}\n\n"), leaf("\n"),
				leaf("\\title{<i>}{<i>&}"), leaf("\\code{<i>}{<b>}"), leaf("\\image{<i>}{"), opener("\\list{", "}", "list"), opener("\n\n\\section{", "}\n\n", "sec"), closer()).with("pages", "html"),
		}
	case "C18":
		return []*Plan{
			plan("elements", m(3, 4), headTP, "", elements()...).with("pages", "html"),
			plan("numbers of entries", m(4, 5), headTP, "", leaf("x#"), opener("\\definitions{\\list{", "}}", "list"), opener("\\definitions{\\definition{", "}}", "list"),
				opener("\\table{\\table-row{", "}}", "list"), opener("\\image{p", "}", "list"), opener("\\target{t#", "}", "list"), opener("\\reference{t", "}", "list"), leaf("}{", "list"), leaf("}}{\\list{", "list"), closer()).with("pages", "html"),
		}
	case "C19":
		return []*Plan{
			plan("styles and partials", m(4, 5), head, "",
				leaf("\\styled{fancy}\n\n", "", "sec"), leaf("\\styled{plain}\n\n", "", "sec"), leaf("\\set-partial{Intro}{p#}\n\n"), leaf("\\set-partial{Other}{q#}\n\n"),
				secPiece, closer(), splitPiece, leaf("text\n\n")).with("pages", "html/style", "text/txt", "html"),
			plan("styled content", m(3, 4), headTP, "",
				opener("\\style{shout}{", "}", "fn"), opener("\\style{bold}{", "}", "fn"), opener("\\style-with{shout}{", "}{Note}{n}", "fn"), opener("\\style-with{shout}{x}{Note}{", "}", "fn"),
				opener("\\style{nope}{", "}", "fn"), opener("\\bold{", "}", "fn"), leaf("\n\n"), leaf("a"), closer()).with("pages", "html/style", "html", "text/txt", "text"),
		}
	case "C20":
		return []*Plan{
			plan("blocks as text", m(3, 5), headTP, "",
				leaf("a\n"), leaf("\n"), opener("\\inset{\n", "}\n", "fn"), opener("\\aside{\n", "}\n", "fn"), leaf("\\code{{\nb\n\n  c\n}}\n"), opener("\\bold{", "}", "fn"), leaf("\\list{x}{y}"),
				opener("\\section{\n\\title{S#}{s#}\n\n", "}\n\n", "sec"), closer(), leaf("<&>")).with("pages", "text", "text/txt"),
			plan("lines of blocks", m(3, 4), headTP, "",
				leaf("\n"), leaf("  b\n"), leaf("\\lines{}{c}"), opener("\\inset{{\n", "}}\n", "fn"), opener("\\aside{{\n", "}}\n", "fn"), opener("\\inset{", "}", "fn"), closer()).with("pages", "text"),
		}
	case "C21":
		return []*Plan{
			plan("tags", m(4, 5), "\\title{T}{t}{u}\n\n", "",
				leaf("x#\n\n"), leaf("\\target{a#}"), leaf("\\target{b#}{B \\bold{c}}{d}"), leaf("\\target{a}"), secPiece, opener("\\section{\n\\title{R#}{r#}{q#}\n\n", "}\n\n", "sec"), splitPiece, closer()).with("index", "html"),
			plan("sections which are not all shown", m(5, 6), head, "", secPiece, closer(), splitPiece, singlePiece, tocPiece, omitPiece, leaf("\\target{a#}", "", "sec")).with("index", "html"),
			plan("targets within content", m(2, 3), headTP, "", nested("\\target{a}{b}{c\nd}", true)...).with("index", "html"),
			plan("content of targets", m(2, 3), headTP+"\\target{a}{t}{", "}", nested("b", false)...).with("index", "html"),
		}
	case "C22":
		return []*Plan{
			plan("tags and references", m(4, 6), "\\title{T}{t}\n\n", "",
				leaf("\\set-partial{A}{\\target{a}}\n\n"), leaf("\\set-partial{B}{\\target{a}}\n\n"), leaf("\\reference{a}\n\n"), secPiece, closer(), splitPiece, leaf("\\single-page\n\n"), leaf("\\include-section{f.lit}\n\n")).with("pages index again", "html").
				file("f.lit", "\\title{F}\n\n\\split-sections\n\n\\reference{t}\n"),
		}
	case "C30":
		return []*Plan{
			plan("references", m(3, 5), headTP, "",
				leaf("\\reference{a}\n\n"), leaf("\\reference{b}{x#}\n\n"), leaf("\\optional{a}{y#}\n\n"), leaf("\\target{a}\n\n"), leaf("\\target{b}\n\n"), secPiece, closer(), splitPiece, leaf("\\title{\\reference{a}}\n\n", "sec")).with("pages index", "html/broken", "html", "text/txt/broken"),
			plan("references within content", m(2, 3), headTP, "", nested("\\reference{nope}", true)...).with("pages", "html/broken"),
		}
	case "C32":
		code := func(open, close string) Piece { return opener(open, close, "code", "") }
		return []*Plan{
			plan("code", m(4, 5), "\\title{T}{t}\n\n\\use-plugin{chroma}\n\n", "",
				code("\\syntax{go}{", "}"), code("\\syntax{nope}{{{\n", "\n}}}"), code("\\syntax{booklit}{{\n", "\n}}"), code("\\syntax{<&>}{{{", "}}}"), code("\\syntax{booklit}{\n", "}{monokai}"),
				leaf("a"), leaf("<&\"'"), leaf("\n"), leaf("  "), leaf("\\\\"), closer()).with("tree pages index", "html/code"),
			plan("marks", m(4, 5), "\\title{T}{t}\n\n\\use-plugin{tp}\n\n", "",
				code("\\highlight{text}{", "}"), code("\\highlight{nope}{{{\n", "\n}}}"), leaf("Q"), leaf("Z"), leaf("\n"), leaf("(<"), leaf("\\bold{Q}"), closer()).with("tree pages", "html/code"),
		}
	case "C33":
		return []*Plan{
			plan("what templates are told", m(5, 7), head, "", secPiece, closer(), splitPiece, singlePiece, leaf("\\target{a#}\n\n")).with("pages", "html/side", "text/tside"),
			plan("raw content", m(2, 3), headTP+"\\style{shout}{", "}\n", nested("a", false)...).with("pages", "html/side"),
			plan("lines of text", m(3, 4), headTP, "", leaf("a#"), leaf("\n"), leaf("  "), fnPiece("bold"), fnPiece("inset"), opener("\\code{{\n", "\n}}", "fn"), leaf("\\list{x}{y}"), closer()).with("pages", "text/tside"),
		}
	case "C31":
		return []*Plan{
			plan("anything", m(3, 4), headTP, "",
				leaf("a"), leaf("\n"), leaf("}"), opener("\\aux{", "}", "fn"), opener("\\section{", "}", "fn"), opener("\\title{", "}", "fn"), opener("\\target{", "}", "fn"), opener("\\reference{", "}", "fn"),
				opener("\\list{", "}", "list"), leaf("}{", "list"), leaf("\\nothing"), opener("\\table{", "}", "fn"), opener("\\definitions{", "}", "list"), opener("\\set-partial{P}{", "}", "fn"),
				leaf("\\nil-content"), opener("\\link{", "}{}", "fn"), opener("\\image{", "}", "fn"), opener("\\styled{", "}", "fn"), opener("\\code{{\n", "}}", "fn"), leaf("\\table-of-contents"), leaf("\\include-section{}"), leaf("\\use-plugin{}"), closer()).
				with("pages tree index", "html"),
			plan("displaying in circles", m(3, 4), headTP, "",
				leaf("\\reference{t} "), leaf("\\reference{u} "), opener("\\reference{u}{", "}", "fn"), opener("\\target{t}{", "}", "fn"), opener("\\target{u}{", "}", "fn"), opener("\\section{\\title{S ", "}{t}{u}}", "fn"),
				opener("\\lazy{", "}", "fn"), opener("\\block{", "}", "fn"), opener("\\styled{", "}", "fn"), opener("\\set-partial{P}{", "}", "fn"), leaf("\\table-of-contents\n\n"), closer()).
				with("pages tree index", "html", "text"),
			plan("including in circles", m(4, 5), head, "",
				leaf("\\include-section{f.lit}\n\n"), leaf("\\include-section{d/g.lit}\n\n"), leaf("\\include-section{d/../main.lit}\n\n"), leaf("\\reference{f}"), secPiece, closer()).
				with("pages tree index", "html").file("f.lit", "\\title{F}{f}\n\n\\section{\\include-section{d/g.lit}}\n").file("d/g.lit", "\\title{G}\n\n\\include-section{h.lit}\n").file("d/h.lit", "\\include-section{../d/../f.lit}\n"),
		}
	}
	return nil
}

// tagged has the characters that mean something in addresses, without some.
func tagged(without ...string) []Piece {
	ps := []Piece{}
	for _, c := range []string{"a", ":", "/", "%", "?", "#1", "&", "\"", "'", " ", "\u00e9", "<", ".", "+", ";", "=", "%41", "~"} {
		if !slices.Contains(without, c) {
			ps = append(ps, leaf(c))
		}
	}
	return ps
}

// nested has everything that can be around content, and what is within it.
func nested(inner string, block bool) []Piece {
	ps := []Piece{leaf(inner), leaf("q ")}
	for _, f := range []string{"bold", "code", "inset", "aside", "echo", "aux", "lazy", "block", "para", "dup"} {
		ps = append(ps, fnPiece(f))
	}
	for _, f := range []string{"list", "ordered-list", "gather", "lines", "table-row"} {
		ps = append(ps, opener("\\"+f+"{", "}", "list"))
	}
	ps = append(ps,
		opener("\\code{{\n", "\n}}", "fn"),
		opener("\\echo{\n", "\n}", "fn"),
		opener("\\link{", "}{u}", "fn"),
		opener("\\reference{t}{", "}", "fn"),
		opener("\\target{n#}{", "}", "fn"),
		opener("\\target{n#}{x}{", "}", "fn"),
		opener("\\definitions{\\definition{", "}{z}}", "fn"),
		opener("\\definitions{\\definition{z}{", "}}", "fn"),
		opener("\\table{\\table-row{y}{", "}}", "fn"),
		opener("\\pair{p}{", "}", "fn"),
		opener("\\style-with{bold}{s}{Note}{", "}", "fn"),
	)
	if block {
		ps = append(ps, opener("\\set-partial{A}{", "}", "fn"), opener("\\section{\\title{", "}{s#} x}", "fn"), opener("\\section{\\title{y \\aux{", "}}{s#} x}", "fn"), opener("\\section{\n\\title{N#}{s#}\n\n", "\n}", "fn"))
	}
	return append(ps, leaf("}{", "list"))
}

// aux has what aux content can be within.
func aux() []Piece {
	ps := []Piece{leaf("a#"), opener("\\aux{", "}", "fn"), closer()}
	for _, f := range []string{"bold", "echo", "inset", "list", "gather", "lines", "para"} {
		ps = append(ps, fnPiece(f))
	}
	return append(ps,
		opener("\\link{", "}{u}", "fn"),
		opener("\\reference{t}{", "}", "fn"),
		opener("\\target{n#}{", "}", "fn"),
		opener("\\definitions{\\definition{", "}{z}}", "fn"),
		opener("\\table{\\table-row{y}{", "}}", "fn"),
		opener("\\pair{p}{", "}", "fn"),
	)
}

// elements has the functions and forms of arguments.
func elements() []Piece {
	ps := []Piece{leaf("a#"), leaf("\n\n"), closer(), leaf("}{", "list"), leaf("\\nothing\n")}
	for _, f := range []string{"bold", "code", "inset"} {
		ps = append(ps, fnPiece(f), opener("\\"+f+"{\n", "\n}", "fn"))
	}
	for _, f := range []string{"list", "ordered-list"} {
		ps = append(ps, opener("\\"+f+"{", "}", "list"))
	}
	return append(ps,
		opener("\\code{{\n", "\n}}", "fn"),
		opener("\\definitions{\\definition{", "}{z}}", "fn"),
		opener("\\table{\\table-row{y}{", "}}", "fn"),
		opener("\\lazy{", "}", "fn"),
	)
}
