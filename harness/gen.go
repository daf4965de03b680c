package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// Profile says what the documents generated for a property are made of.
type Profile struct {
	Name  string
	Cases int // per run of a quick check
	Chars int // wanted size of a document

	// relative frequencies of elements within text
	Word, Escape, Interp, Comment, Call int
	// relative frequencies of groups of functions
	Fn map[string]int
	// relative frequencies of the forms of content arguments
	Inline, Wrapped, Paras, Pre, Verb, VerbBlock, EmptyArg int

	Words []string // alphabet of words
	Tags  []string // tag names
	Title int      // percentage of sections with a title
	TagOf int      // percentage of titles with explicit tags
	Dup   int      // percentage of duplicate tags tolerated
	Plug  int      // percentage of documents which use the test plugins
	Split int      // percentage of sections which split
	Files int      // percentage of sections included from files
	Depth int      // of sections
	Mess  int      // percentage of documents damaged by random edits
	CRLF  int      // percentage of documents with CRLF line endings

	Engines []string // "html", "text", or with a template set: "html/nav"
	Broken  int      // percentage with broken references allowed
	Partial int      // percentage of builds by section, tag or as a single page
	Want    []string
	FailAny int // percentage of documents with a call that fails
	Marks   int // percentage of words which are marked, see comments.go
}

var plainWords = []string{"foo", "bar", "baz qux", "a", "B c", "one two", "x", "Hello", "9", "w-w"}
var specialWords = []string{"<b>", "&amp;", "a<b>c", "\"q\"", "'", "&", "é", "日本", "ß\u00a0x", "</p>", "<!--", "-->",
	"$x$", "%41", "`t`", "(a) [b]", "x & y", "<script>alert(1)</script>", "]]>", "+", "#x", "{{"}
var defaultTags = []string{"t1", "t2", "t-3", "tag4", "u5", "some-tag", "v", "wx", "t7", "t88", "u-9"}

type gen struct {
	r       *rand.Rand
	p       *Profile
	left    int // characters left to write
	free    []string
	used    []string
	files   []File
	nfile   int
	plugins []string // in the section being written
	mem     []string
	inSec   int
	noRef   bool // do not write references (within titles)
	inCode  bool // within highlighted code
	inWord  bool // within braces which take one word
	depth   int
}

func (g *gen) pct(n int) bool { return g.r.Intn(100) < n }
func (g *gen) pick(s ...string) string {
	return s[g.r.Intn(len(s))]
}

// weighted picks an index
func (g *gen) weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	if sum == 0 {
		return 0
	}
	n := g.r.Intn(sum)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

func (g *gen) word() string {
	ws := g.p.Words
	if ws == nil {
		ws = plainWords
	}
	w := ws[g.r.Intn(len(ws))]
	// braces and backslashes are written with escapes
	w = strings.NewReplacer("{", "\\{", "}", "\\}", "\\", "\\\\").Replace(w)
	g.left -= len(w)
	return g.mark(w)
}

func (g *gen) comment() string {
	g.left -= 6
	switch g.r.Intn(6) {
	case 0:
		return "{- c -}"
	case 1:
		return " {- \\fail{no} -}"
	case 2:
		return "{- a {- n -} b -}"
	case 3:
		return "{--}"
	case 4:
		return "{- l1\n l2 -}"
	}
	return "{- } { -} "
}

// flow is text within a line; at least one element.
func (g *gen) flow(depth int) string {
	n := 1 + g.r.Intn(3)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 && g.pct(70) {
			s += " "
		}
		s += g.element(depth)
		if g.left <= 0 {
			break
		}
	}
	return s
}

func (g *gen) element(depth int) string {
	call := g.p.Call
	if depth <= 0 || g.left <= 0 {
		call = 0
	}
	interp := g.p.Interp
	if depth <= 0 {
		interp = 0
	}
	switch g.weighted(g.p.Word, g.p.Escape, interp, g.p.Comment, call) {
	case 1:
		g.left -= 2
		return g.pick("\\\\", "\\{", "\\}")
	case 2:
		g.left -= 2
		if g.pct(20) {
			return "{}"
		}
		was := g.inWord
		g.inWord = true
		defer func() { g.inWord = was }()
		return "{" + g.element(depth-1) + "}"
	case 3:
		return g.comment() + g.word()
	case 4:
		return g.call(depth, false)
	}
	return g.word()
}

func (g *gen) tagArg() string {
	if g.pct(g.p.Dup) || len(g.free) == 0 {
		return g.pick(g.p.tags()...)
	}
	i := g.r.Intn(len(g.free))
	t := g.free[i]
	g.free = append(append([]string{}, g.free[:i]...), g.free[i+1:]...)
	g.used = append(g.used, t)
	return t
}

func (p *Profile) tags() []string {
	if p.Tags == nil {
		return defaultTags
	}
	return p.Tags
}

func escapeText(s string) string {
	return strings.NewReplacer("{", "\\{", "}", "\\}", "\\", "\\\\").Replace(s)
}

// content writes a content argument, with braces.
func (g *gen) content(depth int) string {
	in := g.p
	switch g.weighted(in.Inline, in.Wrapped, in.Paras, in.Pre, in.Verb, in.VerbBlock, in.EmptyArg) {
	case 1:
		return "{" + g.flow(depth-1) + g.pick("\n", "\n  ", "\r\n", "\n\t") + g.flow(depth-1) + "}"
	case 2:
		return "{\n" + g.paras(depth-1, g.pick("", "  ", "\t"), 1+g.r.Intn(2)) + g.pick("", "  ") + "}"
	case 3:
		s := "{{\n"
		ind := g.pick("", "  ", "    ", "\t")
		for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
			switch g.r.Intn(6) {
			case 0:
				s += "\n"
			case 1:
				s += g.pick("", " ", "  ", "      ") + g.preLine(depth-1) + "\n"
			default:
				s += ind + g.preLine(depth-1) + "\n"
			}
		}
		return s + g.pick("", "  ") + "}}"
	case 4:
		return "{{{" + g.verb() + "}}}"
	case 5:
		s := "{{{\n"
		ind := g.pick("", "  ", "    ", "\t")
		for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
			switch g.r.Intn(6) {
			case 0:
				s += "\n"
			case 1:
				s += g.pick("", " ", "  ", "      ", " \t") + g.verb() + "\n"
			default:
				s += ind + g.verb() + "\n"
			}
		}
		return s + g.pick("", "  ") + "}}}"
	case 6:
		return "{}"
	}
	return "{" + g.flow(depth-1) + "}"
}

func (g *gen) preLine(depth int) string {
	s := g.flow(depth)
	if strings.Contains(s, "\n") {
		// what was a block may be a word now
		s = strings.ReplaceAll(withoutComments(s), "\n", " ")
	}
	return s
}

func (g *gen) verb() string {
	g.left -= 5
	v := ""
	for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
		v += g.pick("x", "y  z", "\\a{b}", "{", "}", " } ", "}} ", "{-", "-}", "\\\\", "\\", "<&>", "  ", "q", "\t")
	}
	// a brace directly before the end would be part of it
	return v + g.pick("", ".", " ")
}

// text writes a plain text argument, with braces.
func (g *gen) text() string {
	switch g.r.Intn(12) {
	case 0:
		return "{{{" + g.pick("v t", "a\\b", "x") + "}}}"
	case 1:
		return "{" + g.word() + "\n  " + g.word() + "}"
	case 2:
		if g.uses("tp") {
			return "{\\text{" + g.word() + "}" + g.word() + "}"
		}
	case 3:
		return "{\\italic{" + g.word() + "}}"
	case 4:
		return "{}"
	}
	return "{" + g.word() + "}"
}

func (g *gen) uses(p string) bool {
	for _, x := range g.plugins {
		if x == p {
			return true
		}
	}
	return false
}

// groups of functions; the letters are their arguments:
// c content, s text, t tag to define, r tag to refer to, n syntax,
// a memory name, u link target, + one or more content, * any number,
// L a list with two entries, W one with any number, M several lists
var groups = map[string][]string{
	"style":   {"bold c", "italic c", "larger c", "smaller c", "strike c", "superscript c", "subscript c", "code c"},
	"block":   {"inset c", "aside c", "code c"},
	"link":    {"link cu"},
	"ref":     {"reference r", "reference rc", "reference r"},
	"target":  {"target t", "target tc", "target tcc"},
	"list":    {"list *", "ordered-list *", "list +", "definitions M", "table M", "table-row *", "definitions L", "definition cc"},
	"image":   {"image u", "image us"},
	"aux":     {"aux c"},
	"toc":     {"table-of-contents"},
	"partial": {"set-partial Pc"},
	"omit":    {"omit-children-from-table-of-contents"},
	"single":  {"single-page"},
	"split":   {"split-sections"},
	"styled":  {"styled F"},
	"tpc":     {"echo c", "text s", "nothing", "note s", "nil-content", "nil-both", "fine c", "no-error s", "pair cc", "three csc", "join s*", "strs s", "strs sss", "gather *", "block c", "para c", "lines +", "dup c", "style Kc"},
	"tpn":     {"raw n", "raws sn", "raws snn", "raws s"},
	"mem":     {"remember ac", "recall a", "extend ac", "extend ac", "recall a"},
	"lazy":    {"lazy c", "lazy-block c", "lazy c", "lazy-block c", "lazy-nil"},
	"lazybad": {"lazy-fail s"},
	"opt":     {"optional rc"},
	"with":    {"style-with KcNc", "style Kc", "style-with KcNc"},
	"tq":      {"echo c", "text s", "text ss", "only-q s", "bold s"},
	"fail":    {"fail s", "fail-both s", "fail-pretty s", "fail-pretty-both s", "bad-arg ss", "bad-variadic s", "bad-variadic ss", "bad-result s", "bad-first s", "bad-second s", "bad-count s"},
	"wrong":   {"undefined-fn s", "unknown", "bold", "bold cc", "link c", "target", "reference rcc", "table c", "definitions c", "image sss", "title", "definitions L", "definitions W", "definitions W", "definitions +", "set-partial s", "table L", "echo", "text ss", "pair c", "three cs", "use-plugin s", "include-section s", "nothing s", "b-old c", "bolD c", "-bold c", "bold- c", "a-b-c"},
	"names":   {"bold c", "-bold c", "bold- c", "ordered-list +", "ordered--list +", "a-b-c", "a-b--c", "abc", "o-rdered-list +", "orderedlist +", "table-of-contents", "echo c", "only-q s"},
	"hl":      {"syntax Gc", "syntax Gc", "syntax GcY", "highlight Hc"},
	"sect":    {"section n", "section n"},
	"title2":  {"title c", "title cs"},
}

var tpGroups = map[string]bool{"tpc": true, "tpn": true, "mem": true, "lazy": true, "lazybad": true, "opt": true, "with": true, "fail": true}

// call writes a call of a random function.
func (g *gen) call(depth int, block bool) string {
	names := []string{}
	ws := []int{}
	for _, k := range sortedKeys(g.p.Fn) {
		w := g.p.Fn[k]
		if tpGroups[k] && !g.uses("tp") || k == "tq" && !g.uses("tq") || k == "hl" && (!g.uses("tp") || !g.uses("chroma") || g.noRef || g.inCode) {
			continue
		}
		if g.noRef && (k == "ref" || k == "opt" || k == "target" || k == "toc" || k == "split" || k == "single" || k == "title2") {
			continue
		}
		names = append(names, k)
		ws = append(ws, w)
	}
	if len(names) == 0 {
		return g.word()
	}
	list := groups[names[g.weighted(ws...)]]
	sig := strings.SplitN(list[g.r.Intn(len(list))], " ", 2)
	g.left -= len(sig[0]) + 3
	s := "\\" + sig[0]
	if len(sig) == 1 {
		return s
	}
	switch sig[0] {
	case "syntax", "highlight", "remember", "extend":
		// what is remembered may be recalled within code
		was := g.inCode
		g.inCode = true
		defer func() { g.inCode = was }()
	}
	for _, k := range sig[1] {
		switch k {
		case 'G':
			s += "{" + g.language() + "}"
		case 'H':
			// text which is not split into tokens
			s += "{" + g.pick("text", "nope", "", "plaintext") + "}"
		case 'Y':
			s += "{" + g.pick("monokai", "github", "nope", "") + "}"
		case 'c':
			s += g.content(depth)
		case 's':
			was := g.inCode
			g.inCode = true
			s += g.text()
			g.inCode = was
		case 't':
			s += "{" + escapeText(g.tagArg()) + "}"
		case 'r':
			s += "{" + escapeText(g.refArg()) + "}"
		case 'n':
			s += g.content(depth)
		case 'a':
			s += "{" + g.pick("m", "n", "o") + "}"
		case 'u':
			s += "{" + g.pick("http://x.org/", "https://a.b/c?d=e&f=g#h", "page.html", "mailto:a@b.c", "a/b.png", "../x", "foo#bar", "x y", "é.html", "%41", "javascript:x", "foo:bar", "a\"b", "<x>", "'", "") + "}"
		case 'P':
			s += "{" + g.pick("Intro", "Intro", "Other") + "}"
		case 'F':
			s += "{" + g.pick("fancy", "fancy", "plain", "plain", "nope") + "}"
		case 'K':
			s += "{" + g.pick("shout", "shout", "bold", "nope", "larger") + "}"
		case 'N':
			s += "{" + g.pick("Note", "Note", "Other") + "}"
		case '+', '*':
			n := g.r.Intn(4)
			if k == '+' {
				n = 1 + g.r.Intn(3)
			}
			for i := 0; i < n; i++ {
				s += g.content(depth)
			}
		case 'L':
			s += "{\\" + g.pick("list", "definition", "table-row") + g.content(depth-1) + g.content(depth-1) + "}"
		case 'W':
			s += "{\\" + g.pick("list", "table-row")
			for n := g.r.Intn(5); n > 0; n-- {
				s += g.content(depth - 1)
			}
			s += "}"
		case 'M':
			for i, n := 0, 1+g.r.Intn(2); i < n; i++ {
				if sig[0] == "definitions" {
					s += "{\\definition" + g.content(depth-2) + g.content(depth-2) + "}"
				} else {
					s += "{\\table-row" + g.content(depth-2)
					for g.pct(50) {
						s += g.content(depth - 2)
					}
					s += "}"
				}
			}
		}
	}
	return s
}

func (g *gen) refArg() string {
	if len(g.used) > 0 && g.pct(75) {
		return g.pick(g.used...)
	}
	return g.pick(g.p.tags()...)
}

// paras writes paragraphs, each line indented by ind.
func (g *gen) paras(depth int, ind string, n int) string {
	s := ""
	for i := 0; i < n && (i == 0 || g.left > 0); i++ {
		for j, m := 0, 1+g.r.Intn(2); j < m; j++ {
			s += ind + g.flow(depth) + "\n"
		}
		s += g.markLine()
		if i < n-1 || g.pct(50) {
			s += "\n" + g.markLine()
		}
	}
	return s
}

// section writes the text of a section.
func (g *gen) section(depth int, ind string, root bool) string {
	g.inSec++
	saved := g.plugins
	s := ""
	head := []string{}
	if g.pct(g.p.Title) || root && g.pct(90) {
		head = append(head, g.title(depth))
	}
	if g.pct(g.p.Split) {
		head = append(head, "\\split-sections")
	}
	for _, k := range []string{"single", "omit", "styled"} {
		if w := g.p.Fn[k]; w > 0 && g.pct(w) {
			head = append(head, g.oneOf(k))
		}
	}
	if w := g.p.Fn["partial"]; w > 0 {
		for g.pct(w) {
			head = append(head, g.oneOf("partial"))
		}
	}
	if w := g.p.Fn["toc"]; w > 0 && g.pct(w) {
		head = append(head, "\\table-of-contents")
	}
	g.r.Shuffle(len(head), func(i, j int) {
		if i > 0 || !root {
			head[i], head[j] = head[j], head[i]
		}
	})
	if root {
		if g.pct(g.p.Plug) {
			use := []string{"\\use-plugin{tp}"}
			g.plugins = []string{"tp"}
			if g.p.Fn["tq"] > 0 && g.pct(50) {
				use = append(use, "\\use-plugin{tq}")
				g.plugins = append(g.plugins, "tq")
				if g.pct(50) {
					use[0], use[1] = use[1], use[0]
				}
			}
			if g.p.Fn["hl"] > 0 {
				use = append(use, "\\use-plugin{chroma}")
				g.plugins = append(g.plugins, "chroma")
			}
			head = append(use, head...)
		}
	}
	for _, h := range head {
		s += ind + h + g.pick("\n", "\n\n", "\n\n")
	}
	kids := 0
	if depth > 0 {
		kids = g.r.Intn(4)
	}
	if root && depth > 0 && kids == 0 {
		kids = 1
	}
	if g.pct(80) || kids == 0 {
		s += g.paras(g.depth, ind, 1+g.r.Intn(2))
		s += "\n"
	}
	for i := 0; i < kids && g.left > 0; i++ {
		if g.pct(g.p.Files) {
			s += ind + g.include(depth-1) + "\n\n"
			continue
		}
		// plugins in use are passed on to inline sections
		if g.pct(15) && depth > 1 {
			s += ind + "\\section{" + g.titleLine(depth) + "}\n\n"
		} else {
			inner := ind + g.pick("", "  ", "\t")
			s += ind + "\\section{\n" + g.section(depth-1, inner, false) + ind + "}\n\n"
		}
	}
	if kids > 0 && g.pct(30) {
		s += g.paras(g.depth, ind, 1)
	}
	if !root {
		g.plugins = saved
	}
	g.inSec--
	return s
}

func (g *gen) oneOf(group string) string {
	p := *g.p
	p.Fn = map[string]int{group: 1}
	old := g.p
	g.p = &p
	s := g.call(1, true)
	g.p = old
	return s
}

func (g *gen) title(depth int) string {
	g.noRef = true
	s := "\\title" + g.content(2)
	g.noRef = false
	if g.pct(g.p.TagOf) {
		n := 1
		if g.pct(25) {
			n = 2
		}
		for i := 0; i < n; i++ {
			s += "{" + escapeText(g.tagArg()) + "}"
		}
	}
	return s
}

func (g *gen) titleLine(depth int) string {
	return g.title(depth) + " " + g.flow(1)
}

func (g *gen) include(depth int) string {
	if g.pct(6) {
		return g.pick("\\include-section{missing.lit}", "\\include-section{main.lit}")
	}
	g.nfile++
	dir := g.pick("", "", "d/", "d/e/")
	path := fmt.Sprintf("%sf%d.lit", dir, g.nfile)
	if g.pct(40) {
		// many files of the same name
		dir = fmt.Sprintf("d%d/", g.nfile)
		path = dir + "part.lit"
	}
	saved, mem := g.plugins, g.inSec
	g.plugins = nil
	// paths in the included file are relative to it
	sub := &gen{r: g.r, p: g.p, left: g.left, free: g.free, used: g.used, nfile: g.nfile + 100, depth: g.depth}
	text := sub.section(depth, "", true)
	g.left, g.free, g.used = sub.left, sub.free, sub.used
	for _, f := range sub.files {
		f.Path = dir + f.Path
		g.files = append(g.files, f)
	}
	g.plugins, g.inSec = saved, mem
	g.files = append(g.files, File{path, chars(text)})
	return "\\include-section{" + path + "}"
}

func sortedKeys(m map[string]int) []string {
	out := []string{}
	for k, w := range m {
		if w > 0 {
			out = append(out, k)
		}
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// mess damages a text by a few random edits.
func (g *gen) mess(s string) string {
	rs := []rune(s)
	for i, n := 0, 1+g.r.Intn(3); i < n && len(rs) > 0; i++ {
		at := g.r.Intn(len(rs))
		switch g.r.Intn(4) {
		case 0:
			rs = append(append([]rune{}, rs[:at]...), rs[at+1:]...)
		case 1:
			ins := []rune(g.pick("{", "}", "\\", "{{", "}}", "{{{", "}}}", "{-", "-}", "\n", " \n", "\r", "\t", "\\x", "\n\n"))
			rs = append(append(append([]rune{}, rs[:at]...), ins...), rs[at:]...)
		case 2:
			to := at + g.r.Intn(12)
			if to > len(rs) {
				to = len(rs)
			}
			rs = append(append([]rune{}, rs[:at]...), rs[to:]...)
		case 3:
			rs[at] = []rune(g.pick("{", "}", "\\", " ", "\n", "x", "é", "-"))[0]
		}
	}
	return string(rs)
}

// NewCase writes a document.
func NewCase(r *rand.Rand, p *Profile, id int) *Case {
	for try := 0; ; try++ {
		c := newCase(r, p, id)
		if try > 50 || c.Size() <= p.Chars*2+100 && !tooComplex(c) {
			return c
		}
	}
}

// tooComplex tells whether parsing takes too long: the parser takes time
// exponential in the depth of what is not closed, which is a known finding.
func tooComplex(c *Case) bool {
	done := make(chan bool, 1)
	go func() {
		for _, f := range c.Files {
			err := parseOnly(f.Path, []byte(f.Text()), 150000)
			if err != nil && strings.Contains(err.Error(), "max number of expres") {
				done <- true
				return
			}
		}
		done <- false
	}()
	select {
	case b := <-done:
		return b
	case <-time.After(20 * time.Second):
		// it hangs: let the child process find out
		return false
	}
}

func newCase(r *rand.Rand, p *Profile, id int) *Case {
	g := &gen{r: r, p: p, left: p.Chars, free: append([]string{}, p.tags()...), depth: 3}
	depth := p.Depth
	if depth > 0 {
		depth = 1 + r.Intn(depth)
	}
	text := g.section(depth, "", true)
	if g.pct(p.FailAny) {
		bad := g.oneFail()
		// somewhere at the beginning of a line
		lines := strings.Split(text, "\n")
		at := r.Intn(len(lines))
		lines[at] = bad + lines[at]
		text = strings.Join(lines, "\n")
	}
	if g.pct(p.Mess) {
		text = g.mess(text)
	}
	files := append([]File{{"main.lit", chars(text)}}, g.files...)
	if g.pct(p.CRLF) {
		for i := range files {
			files[i].Src = chars(strings.ReplaceAll(strings.ReplaceAll(files[i].Text(), "\r\n", "\n"), "\n", "\r\n"))
		}
	}
	c := &Case{ID: id, Root: "main.lit", Files: files, Engine: "html", Ext: "html", Want: p.Want}
	if c.Want == nil {
		c.Want = []string{}
	}
	if len(p.Engines) > 0 {
		e := strings.SplitN(g.pick(p.Engines...), "/", 2)
		c.Engine = e[0]
		if len(e) > 1 {
			c.Tmpl = e[1]
		}
		if c.Engine == "text" {
			c.Ext = g.pick("txt", "md", "html")
		}
	}
	c.Broken = g.pct(p.Broken)
	if g.pct(p.Partial) {
		switch r.Intn(3) {
		case 0:
			c.Tag = g.pick(append(g.used, "nope")...)
		case 1:
			c.Single = true
		case 2:
			sub := &gen{r: r, p: p, left: p.Chars / 3, free: g.free, used: g.used, depth: 2}
			c.Files = append(c.Files, File{"sub.lit", chars(sub.section(1, "", true))})
			c.Files = append(c.Files, sub.files...)
			c.Section = "sub.lit"
		}
		if c.Tag != "" && g.pct(50) {
			c.Single = true
		}
	}
	return c
}

func (g *gen) oneFail() string {
	p := *g.p
	p.Fn = map[string]int{"wrong": 3}
	if g.uses("tp") {
		p.Fn["fail"] = 5
	}
	old := g.p
	g.p = &p
	s := g.call(1, true)
	g.p = old
	return s
}
