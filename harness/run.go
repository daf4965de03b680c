package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"golang.org/x/net/html"
)

var basePlugins = []booklit.PluginFactory{baselit.NewPlugin}

// Real is what the implementation did with a case.
type Real struct {
	Outcome
	ErrText string `json:"errText"`
	ErrPage string `json:"errPage"`
	// what the error page has to say as plain text
	ErrSays  string `json:"errSays"`
	Panicked string `json:"panicked"`
	LazyRuns int    `json:"lazyRuns"`
	// those before anything was rendered
	LazyEarly int      `json:"lazyEarly"`
	Crossed   []string `json:"crossed"`
}

// Runner builds cases with the real code.
type Runner struct {
	dir   string // scratch directory
	tmpls string
}

func newRunner() (*Runner, error) {
	dir, err := os.MkdirTemp("", "verif-run")
	if err != nil {
		return nil, err
	}
	// on some systems the directory is a symbolic link
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	r := &Runner{dir: dir, tmpls: filepath.Join(dir, "tmpls")}
	return r, writeTemplates(r.tmpls)
}

func (r *Runner) Close() { os.RemoveAll(r.dir) }

func writeFiles(dir string, c *Case) error {
	for _, f := range c.Files {
		p := filepath.Join(dir, filepath.FromSlash(f.Path))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(f.Text()), 0o644); err != nil {
			return err
		}
		// all files are of the same time
		if err := os.Chtimes(p, theTime, theTime); err != nil {
			return err
		}
	}
	return nil
}

// newProcessor returns a processor, like that of the command or of a program
// that uses the package.
func newProcessor(id int) *load.Processor {
	if id%3 == 0 {
		return &load.Processor{}
	}
	return &load.Processor{SlowInvokeThreshold: time.Minute}
}

func (r *Runner) engine(c *Case) (render.Engine, error) {
	if c.Engine == "text" {
		e := render.NewTextEngine(c.Ext)
		if c.Tmpl != "" {
			return e, e.LoadTemplates(filepath.Join(r.tmpls, c.Tmpl))
		}
		return e, nil
	}
	e := render.NewHTMLEngine()
	if c.Tmpl != "" {
		return e, e.LoadTemplates(filepath.Join(r.tmpls, c.Tmpl))
	}
	return e, nil
}

// build does what Command.Build does.
type build struct {
	root, top *booklit.Section
	pages     map[string]string
	index     []byte
	loaded    bool
	err       error
	st        *RunState
}

func (r *Runner) load(c *Case, src string, p *load.Processor, st *RunState) *build {
	b := &build{st: st, pages: map[string]string{}}
	runStates.Store(p, st)
	b.root, b.err = p.LoadFile(filepath.Join(src, c.Root), basePlugins)
	if b.err != nil {
		return b
	}
	b.top = b.root
	if c.Section != "" {
		b.top, b.err = p.LoadFileIn(b.root, filepath.Join(src, c.Section), basePlugins)
		if b.err != nil {
			return b
		}
	}
	b.loaded = true
	return b
}

func (r *Runner) render(c *Case, b *build, out string) {
	booklit.AllowBrokenReferences = c.Broken
	b.pages = map[string]string{}
	b.err = nil
	eng, err := r.engine(c)
	if err != nil {
		b.err = err
		return
	}
	sel := b.top
	if c.Tag != "" {
		sel = nil
		if tags := b.top.FindTag(c.Tag); len(tags) > 0 {
			sel = tags[0].Section
		}
	}
	if sel == nil {
		b.err = fmt.Errorf("unknown tag: %s", c.Tag)
	} else if c.Single {
		buf := new(bytes.Buffer)
		b.err = eng.RenderSection(buf, sel)
		if b.err == nil {
			b.pages["-"] = buf.String()
		}
	} else {
		os.RemoveAll(out)
		if b.err = os.MkdirAll(out, 0o755); b.err != nil {
			return
		}
		w := render.Writer{Engine: eng, Destination: out}
		b.err = w.WriteSection(sel)
		if b.err == nil {
			ents, _ := os.ReadDir(out)
			for _, e := range ents {
				data, _ := os.ReadFile(filepath.Join(out, e.Name()))
				b.pages[e.Name()] = string(data)
			}
		}
	}
	if c.Wants("index") {
		os.MkdirAll(out, 0o755)
		w := render.Writer{Engine: eng, Destination: out}
		if err := w.WriteSearchIndex(b.root, "search_index.json"); err != nil {
			b.index = []byte("error: " + err.Error())
		} else {
			b.index, _ = os.ReadFile(filepath.Join(out, "search_index.json"))
		}
		os.Remove(filepath.Join(out, "search_index.json"))
	}
}

// Run builds the case and records what there is to observe.
func (r *Runner) Run(c *Case) (real *Real) {
	real = &Real{}
	real.ID = c.ID
	defer func() {
		if p := recover(); p != nil {
			real.Panicked = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	booklit.AllowBrokenReferences = c.Broken

	src := filepath.Join(r.dir, "src")
	os.RemoveAll(src)
	if err := writeFiles(src, c); err != nil {
		real.Panicked = "harness: " + err.Error()
		return real
	}

	p := newProcessor(c.ID)
	b := r.load(c, src, p, &RunState{Mem: map[string]booklit.Content{}})
	d := dumper{dir: src}
	real.Log = b.st.Log
	real.LazyEarly = b.st.LazyRuns
	if !b.loaded {
		real.Stage = "failed"
		r.recordErr(real, src, b.err)
	} else {
		real.Stage = "rendered"
		if c.Wants("tree") {
			real.Tree = d.section(b.top)
		}
		r.render(c, b, filepath.Join(r.dir, "out"))
		r.recordErr(real, src, b.err)
		for name, out := range b.pages {
			real.Pages = append(real.Pages, Page{Name: name, Out: out})
		}
		sort.Slice(real.Pages, func(i, j int) bool { return real.Pages[i].Name < real.Pages[j].Name })
		if c.Wants("index") {
			var m map[string]M
			if err := json.Unmarshal(b.index, &m); err != nil {
				real.Index = []any{M{"bad": string(b.index)}}
			} else {
				names := []string{}
				for n := range m {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					e := m[n]
					e["name"] = n
					real.Index = append(real.Index, e)
				}
			}
		}
		real.LazyRuns = b.st.LazyRuns
		if c.Wants("stripped") {
			var walk func(s *booklit.Section)
			walk = func(s *booklit.Section) {
				before := fmt.Sprint(d.content(s.Body))
				real.Stripped = append(real.Stripped, d.content(booklit.StripAux(s.Body)))
				if after := fmt.Sprint(d.content(s.Body)); after != before {
					real.Crossed = append(real.Crossed, "stripping changed the content: "+before+" is now "+after)
				}
				for _, ch := range s.Children {
					walk(ch)
				}
			}
			walk(b.top)
		}
	}

	if c.Wants("again") {
		r.again(c, src, p, b, real)
	}
	runStates.Delete(p)
	return real
}

// again repeats the build in several ways, all of which must agree.
func (r *Runner) again(c *Case, src string, p *load.Processor, first *build, real *Real) {
	differ := func(how string, b *build) {
		if e, f := errString(first.err), errString(b.err); e != f {
			real.Crossed = append(real.Crossed, fmt.Sprintf("%s: error %q instead of %q", how, f, e))
			return
		}
		for n, out := range first.pages {
			if b.pages[n] != out {
				real.Crossed = append(real.Crossed, fmt.Sprintf("%s: page %s differs:\n%s\ninstead of\n%s", how, n, b.pages[n], out))
				return
			}
		}
		if len(b.pages) != len(first.pages) {
			real.Crossed = append(real.Crossed, how+": different pages")
		}
		if string(b.index) != string(first.index) {
			real.Crossed = append(real.Crossed, fmt.Sprintf("%s: search index differs:\n%s\ninstead of\n%s", how, b.index, first.index))
		}
	}
	out := filepath.Join(r.dir, "out2")
	if first.loaded {
		// the same tree once more
		b := *first
		before := first.st.LazyRuns
		r.render(c, &b, out)
		differ("rendering the same tree again", &b)
		if first.st.LazyRuns != before {
			real.Crossed = append(real.Crossed, "deferred content was computed again")
		}
	}
	second := func(how string, p *load.Processor) {
		b := r.load(c, src, p, &RunState{Mem: map[string]booklit.Content{}})
		if b.loaded {
			r.render(c, b, out)
		}
		differ(how, b)
		if strings.Join(b.st.Log, "\n") != strings.Join(first.st.Log, "\n") {
			real.Crossed = append(real.Crossed, fmt.Sprintf("%s: calls %q instead of %q", how, b.st.Log, first.st.Log))
		}
	}
	second("building again with the same processor", p)
	second("building again with a new processor", newProcessor(c.ID+1))
	for i := 0; i < 3; i++ {
		second("building once more", newProcessor(c.ID+1))
	}
}

func errString(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// recordErr records the error, how it is reported, and what the error page marks.
func (r *Runner) recordErr(real *Real, src string, err error) {
	real.Err = classify(err, src)
	if err == nil {
		return
	}
	real.ErrText = stripDir(err.Error(), src)
	real.Err["message"] = stripDir(deepest(err).Error(), src)
	var pretty booklit.PrettyError
	if errors.As(err, &pretty) {
		buf := new(bytes.Buffer)
		pretty.PrettyPrint(buf)
		lines := []any{}
		for _, l := range strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n") {
			lines = append(lines, strings.ReplaceAll(stripDir(l, src), "\x1b", ""))
		}
		real.Err["report"] = lines
	} else {
		real.Err["report"] = []any{real.ErrText}
	}
	rec := httptest.NewRecorder()
	booklit.ErrorResponse(rec, err)
	page := rec.Body.String()
	real.ErrPage = stripDir(page, src)
	real.ErrSays = stripDir(plainCause(err), src)
	real.Err["marks"] = pageMarks(page, src)
}

// plainCause is what an error without a description of its own says which is the
// cause, if it is one.
func plainCause(err error) string {
	for {
		var pretty booklit.PrettyError
		if !errors.As(err, &pretty) {
			return err.Error()
		}
		failed, ok := pretty.(booklit.FailedFunctionError)
		if !ok {
			return ""
		}
		err = failed.Err
	}
}

// deepest is the error with a description of its own, below the wrapping done
// by templates.
func deepest(err error) error {
	var pretty booklit.PrettyError
	if errors.As(err, &pretty) {
		return pretty
	}
	return err
}

func classify(err error, src string) M {
	if err == nil {
		return M{"k": "none"}
	}
	at := func(loc booklit.ErrorLocation) M {
		return M{"file": dumper{dir: src}.path(loc.FilePath), "line": loc.NodeLocation.Line,
			"col": loc.NodeLocation.Col, "len": loc.Length}
	}
	with := func(m M, more M) M {
		for k, v := range more {
			m[k] = v
		}
		return m
	}
	switch e := deepest(err).(type) {
	case booklit.ParseError:
		return with(M{"k": "parse"}, at(e.ErrorLocation))
	case booklit.UndefinedFunctionError:
		return with(M{"k": "undef", "fn": e.Function}, at(e.ErrorLocation))
	case booklit.FailedFunctionError:
		return with(M{"k": "failed", "fn": e.Function, "err": classify(e.Err, src)}, at(e.ErrorLocation))
	case booklit.TitleTwiceError:
		return with(M{"k": "twice", "first": at(e.TitleLocation)}, at(e.ErrorLocation))
	case booklit.UnknownTagError:
		similar := []any{}
		for _, t := range e.SimilarTags {
			similar = append(similar, t.Name)
		}
		return with(M{"k": "unknown", "tag": e.TagName, "similar": similar}, at(e.ErrorLocation))
	case booklit.AmbiguousReferenceError:
		defs := []any{}
		for _, l := range e.DefinedLocations {
			defs = append(defs, at(l))
		}
		return with(M{"k": "ambig", "tag": e.TagName, "defs": defs}, at(e.ErrorLocation))
	case Pretty:
		return M{"k": "pretty", "msg": e.Msg}
	}
	return M{"k": "plain", "msg": stripDir(err.Error(), src)}
}

// pageMarks finds the source lines which the error page shows:
// [file, line number, before, marked, after].
func pageMarks(page, src string) []any {
	out := []any{}
	var cur []any
	z := html.NewTokenizer(strings.NewReader(page))
	state := ""
	text := [5]string{}
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		tok := z.Token()
		class := ""
		for _, a := range tok.Attr {
			if a.Key == "class" {
				class = a.Val
			}
		}
		switch tt {
		case html.StartTagToken:
			switch {
			case tok.Data == "pre" && class == "file-path":
				state = "file"
				text = [5]string{}
			case tok.Data == "pre" && class == "lineno":
				state = "lineno"
			case tok.Data == "pre" && class == "line":
				state = "before"
			case tok.Data == "span" && class == "annotated" && state == "before":
				state = "marked"
			case tok.Data == "span" && class == "eof":
				state = "eof"
			default:
				if state != "" {
					text[4] += "<" + tok.Data + ">"
				}
			}
		case html.EndTagToken:
			switch {
			case tok.Data == "span" && state == "marked":
				state = "after"
			case tok.Data == "pre" && (state == "file" || state == "lineno"):
				state = ""
			case tok.Data == "pre" && state != "":
				file := strings.TrimSuffix(text[0], ":")
				cur = []any{stripDir(file, src), strings.TrimSpace(text[1]), text[2], text[3], text[4]}
				out = append(out, cur)
				state = ""
			}
		case html.TextToken:
			switch state {
			case "file":
				text[0] += tok.Data
			case "lineno":
				text[1] += tok.Data
			case "before":
				text[2] += tok.Data
			case "marked":
				text[3] += tok.Data
			case "after":
				text[4] += tok.Data
			}
		}
	}
	return out
}

// parseOnly parses with a limit on the work done.
func parseOnly(name string, src []byte, limit uint64) error {
	_, err := ast.Parse(name, src, ast.MaxExpressions(limit))
	return err
}
