package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/alecthomas/chroma/lexers"
	"github.com/alecthomas/chroma/styles"
	"github.com/vito/booklit"
	"github.com/vito/booklit/chroma"
	_ "github.com/vito/booklit/chroma/plugin"
	"golang.org/x/net/html"
	stdhtml "html"
)

// Highlight marks code in the way of Eval!Markers.
func (p *TP) Highlight(language string, code booklit.Content) (booklit.Content, error) {
	p.log("highlight:" + language)
	styled := func(style booklit.Style) func(string) booklit.Content {
		return func(s string) booklit.Content {
			return booklit.Styled{Style: style, Content: booklit.String(s)}
		}
	}
	return chroma.NewPlugin(p.section).(chroma.Plugin).SyntaxTransform(language, code, styles.Fallback,
		chroma.Transformer{Pattern: regexp.MustCompile("Q+"), Transform: func(s string) booklit.Content { return booklit.String("(" + s + ")Z") }},
		chroma.Transformer{Pattern: regexp.MustCompile("Z"), Transform: styled("bold")},
		chroma.Transformer{Pattern: regexp.MustCompile(`\(Q`), Transform: styled("italic")},
	)
}

// hangs are languages for which the highlighting library never ends, which is a
// known finding.
var hangs = map[string]bool{"jungle": true, "Jungle": true}

var languageNames = sync.OnceValue(func() []string {
	names := []string{}
	for _, n := range lexers.Names(true) {
		if !hangs[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return append(names, "nope", "", "a b", "<&>")
})

func (g *gen) language() string {
	if g.pct(50) {
		return g.pick("go", "bash", "json", "booklit", "html", "text", "nope", "")
	}
	return escapeText(g.pick(languageNames()...))
}

// textOf is the text which HTML shows.
func textOf(markup string) string {
	z := html.NewTokenizer(strings.NewReader(markup))
	s := ""
	for {
		switch z.Next() {
		case html.ErrorToken:
			return s
		case html.TextToken:
			s += string(z.Text())
		}
	}
}

// codeText is the text of code, without what highlighting may change: the way
// in which lines end, and whether the last one does.
func codeText(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
	return strings.TrimSuffix(s, "\n")
}

func (c *Case) highlights() bool {
	if c == nil {
		return false
	}
	for _, f := range c.Files {
		if t := f.Text(); strings.Contains(t, "\\syntax") || strings.Contains(t, "\\highlight") {
			return true
		}
	}
	return false
}

var codeMarkup = regexp.MustCompile(`</?(span|pre|code)( tabindex="0")?( style="[^"]*")?>`)

// codeSummary is the text of an entry of the search index without the markup of
// highlighted code, and without white space: a list indents every line of its
// items, and the markup has other lines than the code.
func codeSummary(s string) string {
	s = strings.NewReplacer("\n", "", "\r", "", " ", "").Replace(codeMarkup.ReplaceAllString(s, ""))
	for {
		t := stdhtml.UnescapeString(s)
		if t == s {
			return s
		}
		s = t
	}
}

// plainCode leaves of highlighted code what Render has: the text, and whether
// it is preformatted.
func plainCode(toks []htmlTok) []htmlTok {
	out := []htmlTok{}
	code := "" // what closes it
	text := func(s string) {
		if len(out) > 0 && out[len(out)-1].kind == 't' {
			out[len(out)-1].text += s
		} else {
			out = append(out, htmlTok{kind: 't', text: s})
		}
	}
	for _, t := range toks {
		if code == "" {
			out = append(out, t)
			if t.kind == 'o' && strings.Contains(strings.Join(t.attrs, " "), "data-language=") {
				code = t.name
			}
			continue
		}
		switch {
		case t.kind == 't':
			text(t.text)
			continue
		case t.kind == 'o' && t.name == "pre":
			out = append(out, htmlTok{kind: 'o', name: "pre"})
			continue
		case t.kind == 'c' && (t.name == "pre" || t.name == code && (code != "code" || t.name == "code")):
			last := &out[len(out)-1]
			if last.kind == 't' {
				if last.text = codeText(last.text); last.text == "" {
					out = out[:len(out)-1]
				}
			}
			if t.name == "pre" && out[len(out)-1].kind == 'o' && out[len(out)-1].name == "pre" {
				out = out[:len(out)-1]
				continue
			}
			out = append(out, t)
			if t.name == code {
				code = ""
			}
			continue
		case (t.kind == 'o' || t.kind == 'c') && (t.name == "span" || t.name == "code"):
			continue
		}
		out = append(out, t)
	}
	for i := range out {
		if out[i].kind == 't' {
			out[i].text = strings.ReplaceAll(strings.ReplaceAll(out[i].text, "\r\n", "\n"), "\r", "\n")
		}
	}
	return out
}

// codeSamples are texts which lexers might get wrong.
var codeSamples = []string{"a", "\n\na\n\n", "  x\n\ty  ", "<b>&amp;\"'</b>", "{{x}} {% y %} <?php echo 1 ?> <% z %>",
	"/* c */ // d\n# e\n-- f\n\"str\" 'q' `b`", "é日本\u00a0\u200b😀", "GET / HTTP/1.1\nHost: x\nContent-Type: application/json\n\n{\"a\":1}\n",
	"%%% $$$ @@@ \\\\ ```go\nx\n```\n", "<script>var x=1</script><style>a{}</style>", "(((", "\"unterminated", "#!/bin/sh\necho $x <<EOF\nhi\nEOF\n",
	"---\na: b\n---\n", "\ufeffbom", "\\begin{x}\n\\end{x}", "\\title{x}{y}\n\n\\section{\n{- c {- d -} -}\n\\code{{{\n}}x{{\n}}}\n}", "{{{a}b}}", "\\{\\}\\\\", "\\", "{-", "\\X", "}}", "a-b \\a-b{{x}\n",
	"func main() {\n\tx := `a` // b\n}", "a\tb", "if [[ $x == 'y' ]]; then\n  z\nfi"}

// languages are documents with code of every language.
func languages(quick bool) []*Case {
	names := languageNames()
	cases := []*Case{}
	per := 8
	for k := 0; k*per < len(names); k++ {
		for j := range codeSamples {
			if quick && (j+k)%5 != 0 {
				continue
			}
			s := "\\title{T}{t}\n\n\\use-plugin{chroma}\n\n"
			for i := k * per; i < (k+1)*per && i < len(names); i++ {
				code := codeSamples[j]
				if i%2 == 1 {
					code = codeSamples[(j+7)%len(codeSamples)]
				}
				if strings.Contains(code, "}}}") || strings.HasSuffix(code, "}") || strings.HasPrefix(code, "\n") || (i+j)%3 > 0 {
					s += "\\syntax{" + escapeText(names[i]) + "}{{\n" + escapeText(code) + "\n}}\n\n"
				} else {
					s += "x \\syntax{" + escapeText(names[i]) + "}{{{" + strings.ReplaceAll(code, "\n", " ") + "}}} y\n\n"
				}
			}
			cases = append(cases, &Case{ID: len(cases) + 1, Root: "main.lit", Files: []File{{"main.lit", chars(s)}},
				Engine: "html", Ext: "html", Tmpl: "code", Want: []string{"tree", "pages", "index"}})
		}
	}
	return cases
}

// highlightPattern is a pattern of Marks.tla.
type highlightPattern struct {
	K string   `json:"k"`
	S []string `json:"s"`
}

func (p highlightPattern) regexp() *regexp.Regexp {
	s := ""
	for _, c := range p.S {
		s += regexp.QuoteMeta(strings.ReplaceAll(c, "E", "é"))
	}
	switch p.K {
	case "one":
		s = "[" + s + "]"
	case "some":
		s = "[" + s + "]+"
	case "any":
		s = "[" + s + "]*"
	case "start":
		s = "^"
	}
	return regexp.MustCompile(s)
}

// transformations compares TransformAll and SyntaxTransform with Highlight.tla,
// on all texts and all chains of transformers.
func (x *Ctx) transformations() error {
	// TLC damages é when it writes states to disk, so the specification has E
	accent := func(s string) string { return strings.ReplaceAll(s, "E", "é") }
	plan := M{"alphabet": []string{"Q", "Z", "E"}, "max": x.n(4, 6), "chain": 2, "patterns": []highlightPattern{}}
	patterns := []highlightPattern{{"lit", []string{"Q"}}, {"lit", []string{"Q", "Z"}}, {"lit", []string{"Q", "Q"}}, {"lit", []string{"E", "("}},
		{"one", []string{"Z", "E"}}, {"some", []string{"Q"}}, {"some", []string{"(", "E"}}, {"any", []string{"Z"}}, {"start", []string{}}}
	plan["patterns"] = patterns
	dir, err := os.MkdirTemp("", "verif-marks")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	file := filepath.Join(dir, "plan.ndjson")
	data, _ := json.Marshal(plan)
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return err
	}
	res, err := runTLC("Highlight.tla", "Highlight.cfg", []string{"PIECES=" + file, "OUT=" + out}, 9*time.Minute)
	x.tlc(res)
	if err != nil {
		return err
	}
	if res.Violated != "" {
		return fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, tail(res.Output, 3000))
	}
	entries, err := os.ReadDir(out)
	if err != nil {
		return err
	}
	res1 := []*regexp.Regexp{}
	for _, p := range patterns {
		res1 = append(res1, p.regexp())
	}
	n := 0
	for _, e := range entries {
		f, err := os.Open(filepath.Join(out, e.Name()))
		if err != nil {
			return err
		}
		dec := json.NewDecoder(f)
		for dec.More() {
			var w struct {
				Text   string      `json:"text"`
				Chain  [][2]int    `json:"chain"`
				Pieces [][2]string `json:"pieces"`
			}
			if err := dec.Decode(&w); err != nil {
				f.Close()
				return fmt.Errorf("%s: %v", e.Name(), err)
			}
			n++
			w.Text = accent(w.Text)
			for i := range w.Pieces {
				w.Pieces[i][1] = accent(w.Pieces[i][1])
			}
			ts := []chroma.Transformer{}
			empty := false
			for _, c := range w.Chain {
				p := patterns[c[0]-1]
				empty = empty || p.K == "any" || p.K == "start"
				t := chroma.Transformer{Pattern: res1[c[0]-1]}
				if c[1] == 1 {
					t.Transform = func(s string) booklit.Content {
						return booklit.Styled{Style: "bold", Content: booklit.String(s)}
					}
				} else {
					t.Transform = func(s string) booklit.Content { return booklit.String("(" + s + ")") }
				}
				ts = append(ts, t)
			}
			desc := func(got [][2]string) (string, any) {
				names := []string{}
				for _, c := range w.Chain {
					names = append(names, fmt.Sprintf("%s -> %s", res1[c[0]-1], []string{"bold", "(...)"}[c[1]-1]))
				}
				return fmt.Sprintf("%q transformed by %s: want %q, got %q", w.Text, strings.Join(names, ", then "), w.Pieces, got),
					M{"text": w.Text, "transformers": names, "want": w.Pieces, "got": got}
			}
			if len(ts) == 1 {
				if got := piecesOf(ts[0].TransformAll(w.Text), false); !samePieces(got, w.Pieces, false) {
					x.Violation(desc(got))
				}
			}
			if !empty {
				for _, code := range []booklit.Content{booklit.String(w.Text), booklit.Preformatted{booklit.String(w.Text)}} {
					c, err := chroma.NewPlugin(nil).(chroma.Plugin).SyntaxTransform("text", code, styles.Fallback, ts...)
					if err != nil {
						x.Violation(fmt.Sprintf("transforming %q fails: %v", w.Text, err), w)
						continue
					}
					s, _ := c.(booklit.Styled)
					seq, _ := s.Content.(booklit.Sequence)
					if got := piecesOf(seq, true); !samePieces(got, w.Pieces, true) {
						x.Violation(desc(got))
					}
				}
			}
			x.Seen("t" + w.Text + fmt.Sprint(w.Chain))
			x.Traces++
		}
		f.Close()
	}
	x.Extra["transformations"] = M{"texts": len(entries), "texts_and_chains": n, "states": res.Distinct}
	return nil
}

func piecesOf(seq booklit.Sequence, raw bool) [][2]string {
	got := [][2]string{}
	for _, c := range seq {
		switch c := c.(type) {
		case booklit.String:
			if raw {
				got = append(got, [2]string{"?", string(c)})
			} else {
				got = append(got, [2]string{"text", string(c)})
			}
		case booklit.Styled:
			if c.Style == "raw-html" {
				got = append(got, [2]string{"text", textOf(c.Content.String())})
			} else {
				got = append(got, [2]string{string(c.Style), c.Content.String()})
			}
		default:
			got = append(got, [2]string{fmt.Sprintf("%T", c), c.String()})
		}
	}
	return got
}

// samePieces compares pieces; with markup around them, text which is empty, or
// divided, does not count.
func samePieces(got, want [][2]string, markup bool) bool {
	merge := func(ps [][2]string) [][2]string {
		out := [][2]string{}
		for _, p := range ps {
			if p[0] == "text" {
				p[1] = strings.TrimSuffix(p[1], "\n")
				if p[1] == "" {
					continue
				}
				if len(out) > 0 && out[len(out)-1][0] == "text" {
					out[len(out)-1][1] += p[1]
					continue
				}
			}
			out = append(out, p)
		}
		return out
	}
	if markup {
		got, want = merge(got), merge(want)
	}
	return fmt.Sprint(got) == fmt.Sprint(want)
}

// hanging runs the input of the finding that the highlighting of a language
// does not end.
func (x *Ctx) hanging() {
	self, err := os.Executable()
	if err != nil {
		return
	}
	cmd := exec.Command(self, "syntax", "jungle", "é")
	if err := cmd.Start(); err != nil {
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		cmd.Process.Kill()
		<-done
		x.finding("jungle-lexer", "highlighting é as jungle does not end", "\\use-plugin{chroma}\n\n\\syntax{jungle}{é}")
	}
}

func init() {
	register("C32", "all texts and chains of transformers up to a bound (Highlight.tla); documents with code of every language that there is; and generated documents, complete up to a bound and random, with code of all languages in all forms; distinct texts with chains, and documents with highlighted code", func(x *Ctx) error {
		x.hanging()
		if err := x.transformations(); err != nil || len(x.Violations) > 0 {
			return err
		}
		d := Docs{Aspects: "stage error tree page pages index log"}
		if err := x.compareAll(languages(x.quick()), d); err != nil || len(x.Violations) > 0 {
			return err
		}
		d.Profile = func(p *Profile) {
			p.Fn = fn("hl", 20, "style", 3, "list", 3, "tpc", 3, "lazy", 2, "target", 3, "aux", 2, "block", 2, "mem", 2)
			p.Words = append(append([]string{}, plainWords...), "Q", "QQ", "Z", "ZQ", "<b>", "&", "é", "\"", "'", "x=1", "// c", "QZ")
			p.Inline, p.Wrapped, p.Paras, p.Pre, p.Verb, p.VerbBlock = 6, 2, 2, 5, 4, 5
			p.Plug, p.CRLF, p.Depth, p.Call = 100, 10, 1, 12
			p.Engines = []string{"html/code", "html/code", "html/code", "html/code", "html", "text/txt"}
			p.Want = []string{"tree", "pages", "index"}
		}
		d.NonTriv = func(w *Outcome) bool { return has(w, "raw-html") || fails(w) }
		return x.docs(d)
	})
}
