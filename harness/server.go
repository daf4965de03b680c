package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/render"
	"golang.org/x/net/html"
)

// SiteFile is a file which can have several contents; see Site.tla.
type SiteFile struct {
	Path string     `json:"path"`
	Vs   [][]string `json:"vs"`
}

// Op is an edit; see Server.tla.
type Op struct {
	F   int    `json:"f"`
	V   int    `json:"v"`
	How string `json:"how"`
}

// Site is what a server serves.
type Site struct {
	Name     string     `json:"name"`
	Files    []SiteFile `json:"files"`
	Tmpls    []string   `json:"tmpls"`
	Urls     []string   `json:"urls"`
	Static   []string   `json:"static"`
	Rounds   int        `json:"rounds"`
	Ops      []Op       `json:"ops"`
	Newer    bool       `json:"newer"`
	Kinds    [][]string `json:"kinds"`
	Unlocked bool       `json:"unlocked"`
	Requests int        `json:"requests"`
	Edits    int        `json:"edits"`
	Bare     bool       `json:"bare"` // the server has no directory of templates
}

// full has no lists that are null, which TLC cannot read.
func (s *Site) full() *Site {
	if s.Static == nil {
		s.Static = []string{}
	}
	if s.Ops == nil {
		s.Ops = []Op{}
	}
	if s.Kinds == nil {
		s.Kinds = [][]string{}
	}
	if s.Urls == nil {
		s.Urls = []string{}
	}
	return s
}

func siteFile(path string, contents ...string) SiteFile {
	f := SiteFile{Path: path}
	for _, c := range contents {
		f.Vs = append(f.Vs, chars(c))
	}
	return f
}

// Answer is how the server has to answer.
type Answer struct {
	Status  int      `json:"status"`
	Kind    string   `json:"kind"`
	K       string   `json:"k"`
	Message string   `json:"message"`
	Says    []string `json:"says"`
	Marks   []any    `json:"marks"`
	Out     any      `json:"out"`
	URL     string   `json:"url"`
}

// Step is one of a history.
type Step struct {
	Op  string `json:"op"`
	F   int    `json:"f"`
	V   int    `json:"v"`
	How string `json:"how"`
	Key string `json:"key"`
	R   int    `json:"r"`
	URL int    `json:"url"`
}

// History is a behaviour of the specification.
type History struct {
	Name  string
	Steps []Step
}

var tmplStates = map[string]string{
	"b1":    `<b class="b1">{{.Content | render}}</b>`,
	"b2":    `<b class="b2">{{.Content | render}}</b>`,
	"fails": `<b>{{.Nope}}</b>`,
	"bad":   `<b class="b3">{{.Content | render}}</b>{{if}}`,
}

const staticText = "static: "

// serverRun is a real server with its files in a scratch directory.
type serverRun struct {
	site   *Site
	dir    string
	clock  atomic.Int64
	server *booklitcmd.Server
	state  *RunState
	swift  bool
	how    func(u string) *http.Request // other ways to ask
}

func newServerRun(site *Site, dir string) *serverRun {
	s := &serverRun{site: site, dir: dir}
	for _, d := range []string{"src", "tmpl", "out"} {
		os.MkdirAll(filepath.Join(dir, d), 0o755)
	}
	for _, p := range site.Static {
		f := filepath.Join(dir, "out", filepath.FromSlash(p))
		os.MkdirAll(filepath.Dir(f), 0o755)
		os.WriteFile(f, []byte(staticText+p), 0o644)
	}
	for i := range site.Files {
		s.edit(Step{F: i + 1, V: 1, How: "kept"})
	}
	if site.Tmpls[0] != "" {
		s.edit(Step{F: 0, V: 1, How: "kept"})
	}
	p := newProcessor(1)
	s.state = &RunState{Mem: nil}
	runStates.Store(p, s.state)
	s.server = &booklitcmd.Server{
		In:         filepath.Join(dir, "src", site.Files[0].Path),
		Processor:  p,
		Templates:  filepath.Join(dir, "tmpl"),
		Engine:     render.NewHTMLEngine(),
		FileServer: http.FileServer(http.Dir(filepath.Join(dir, "out"))),
	}
	if site.Bare {
		s.server.Templates = ""
	}
	return s
}

func (s *serverRun) close() {
	runStates.Delete(s.server.Processor)
	os.RemoveAll(s.dir)
}

// The times of files differ by little, and files of different names have the
// same times.
var theTime = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// edit does what the step says, as an editor which writes a new file and moves
// it to its place.
func (s *serverRun) edit(st Step) error {
	path, text := filepath.Join(s.dir, "tmpl", "bold.tmpl"), ""
	own := 0
	if st.F > 0 {
		f := s.site.Files[st.F-1]
		path = filepath.Join(s.dir, "src", filepath.FromSlash(f.Path))
		if st.V > 0 {
			text = strings.Join(f.Vs[st.V-1], "")
		}
		own = st.V
	} else {
		text = tmplStates[s.site.Tmpls[st.V-1]]
		own = st.V
	}
	now := s.clock.Add(1)
	if text == "" && (st.F == 0 || st.V == 0) {
		if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
			return err
		}
		return nil
	}
	t := theTime.Add(time.Duration(own) * time.Millisecond)
	if s.swift && st.How == "kept" {
		// a link to a file which is there already is faster
		from := filepath.Join(s.dir, fmt.Sprintf("prep-%d-%d", st.F, st.V))
		tmp := fmt.Sprintf("%s.new%d", path, now)
		if err := os.Link(from, tmp); err != nil {
			if err := os.WriteFile(from, []byte(text), 0o644); err != nil {
				return err
			}
			if err := os.Chtimes(from, t, t); err != nil {
				return err
			}
			if err := os.Link(from, tmp); err != nil {
				return err
			}
		}
		defer os.Remove(tmp)
		return os.Rename(tmp, path)
	}
	if st.How == "now" {
		t = theTime.Add(time.Duration(1000+now) * time.Millisecond)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	tmp := path + ".new"
	if err := os.WriteFile(tmp, []byte(text), 0o644); err != nil {
		return err
	}
	if err := os.Chtimes(tmp, t, t); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

// serve lets the server handle a request.
func (s *serverRun) serve(w http.ResponseWriter, u string) {
	if s.how != nil {
		s.server.ServeHTTP(w, s.how(u))
		return
	}
	r := &http.Request{Method: "GET", URL: &url.URL{Path: u}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "localhost"}
	s.server.ServeHTTP(w, r)
}

// requestErr sends a request to the server and waits for its answer.
func (s *serverRun) requestErr(u string) (*httptest.ResponseRecorder, string) {
	w := httptest.NewRecorder()
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("GET %s: panic: %v\n%s", u, p, tail2(string(debug.Stack()), 3000))
			}
		}()
		s.serve(w, u)
		done <- ""
	}()
	select {
	case bad := <-done:
		return w, bad
	case <-time.After(30 * time.Second):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		return httptest.NewRecorder(), fmt.Sprintf("GET %s: no answer within 30 s\n%s", u, tail2(string(buf), 6000))
	}
}

// request is for requests one after another.
func (s *serverRun) request(u string) *httptest.ResponseRecorder {
	s.state.Mem = map[string]booklit.Content{}
	w, bad := s.requestErr(u)
	if bad != "" {
		panic(bad)
	}
	return w
}

// ways are requests for a path which have the same answer as a plain one: with
// a query, encoded, by HTTP/1.0 with headers of a browser.
var ways = []func(u string) *http.Request{
	func(u string) *http.Request {
		r := httptest.NewRequest("GET", "http://localhost/", nil)
		r.URL.Path, r.URL.RawQuery = u, "page=/other.html&x.html"
		return r
	},
	func(u string) *http.Request {
		raw := ""
		for i := 0; i < len(u); i++ {
			if u[i] == '/' {
				raw += "/"
			} else {
				raw += fmt.Sprintf("%%%02X", u[i])
			}
		}
		r := httptest.NewRequest("GET", "http://localhost/", nil)
		r.URL.Path, r.URL.RawPath = u, raw
		r.RequestURI = raw
		return r
	},
	func(u string) *http.Request {
		r := httptest.NewRequest("GET", "http://localhost/", nil)
		r.URL.Path = u
		r.Proto, r.ProtoMinor = "HTTP/1.0", 0
		r.Host = "other.example"
		r.Header.Set("Accept", "image/png")
		r.Header.Set("Accept-Encoding", "gzip, br")
		r.Header.Set("If-None-Match", "\"x\"")
		r.Header.Set("Referer", "http://localhost/other.html")
		r.Header.Set("Cookie", "a=b")
		return r
	},
}

// pageText is the text of a page as a browser shows it.
func pageText(page string) string {
	z := html.NewTokenizer(strings.NewReader(page))
	s, hidden := "", false
	for {
		switch t := z.Next(); t {
		case html.ErrorToken:
			return s
		case html.StartTagToken, html.EndTagToken:
			if name, _ := z.TagName(); string(name) == "style" || string(name) == "title" {
				hidden = t == html.StartTagToken
			}
		case html.TextToken:
			if !hidden {
				s += string(z.Text())
			}
		}
	}
}

// differs says how a response is not the answer; marks are compared only when
// the source files are still those of the answer.
func (s *serverRun) differs(a Answer, w *httptest.ResponseRecorder, marks bool) string {
	body := w.Body.String()
	src := filepath.Join(s.dir, "src")
	if w.Code != a.Status {
		return fmt.Sprintf("status %d instead of %d (%s %s): %s", w.Code, a.Status, a.Kind, a.Message, stripDir(tail2(body, 1500), src))
	}
	switch a.Kind {
	case "static":
		if body != staticText+a.URL {
			return fmt.Sprintf("instead of the file %s: %s", a.URL, tail2(body, 500))
		}
	case "page":
		if d := diffLines(wantHTML(a.Out), gotHTML(body)); d != "" {
			return "page: " + d
		}
	case "error":
		page := stripDir(body, src)
		text := stripDir(pageText(body), src)
		if strings.Contains(page, "failed to render error page") || !strings.Contains(page, "</html>") {
			return "the error page cannot be shown: " + page
		}
		for _, say := range a.Says {
			if !strings.Contains(text, say) {
				return fmt.Sprintf("the error page does not say %q: %s", say, strings.Join(strings.Fields(text), " "))
			}
		}
		if d := firstDiff("marks", crLess(generic(a.Marks)), generic(pageMarks(body, src))); marks && d != "" {
			return d
		}
	}
	return ""
}

// explore lets the specification produce histories and replays each.
func (x *Ctx) histories(module string, site *Site, timeout time.Duration, extra ...string) (map[string][]Answer, []History, error) {
	dir, err := os.MkdirTemp("", "verif-server")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "site.ndjson")
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	data, _ := json.Marshal(site.full())
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return nil, nil, err
	}
	if keep := os.Getenv("VERIF_KEEP"); keep != "" {
		os.WriteFile(keep, data, 0o644)
	}
	env := []string{"SITE=" + file, "OUT=" + out}
	for _, m := range []string{"Site", module} {
		if m == "" {
			continue
		}
		more := extra
		if m == "Site" {
			more = nil
		}
		res, err := runTLC(m+".tla", m+".cfg", env, timeout, more...)
		x.tlc(res)
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Fprintln(os.Stderr, site.Name, m, res.Wall, res.Generated)
		}
		if err != nil && len(more) == 0 {
			return nil, nil, err
		}
		if res.Violated != "" {
			return nil, nil, fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, tail(res.Output, 3000))
		}
	}
	answers := map[string][]Answer{}
	hs := []History{}
	entries, err := os.ReadDir(out)
	if err != nil {
		return nil, nil, err
	}
	for _, e := range entries {
		data, err := os.ReadFile(filepath.Join(out, e.Name()))
		if err != nil {
			return nil, nil, err
		}
		name := strings.TrimSuffix(e.Name(), ".json")
		if key, ok := strings.CutPrefix(name, "answers-"); ok {
			var a []Answer
			if err := json.Unmarshal(data, &a); err != nil {
				return nil, nil, fmt.Errorf("%s: %v", name, err)
			}
			answers[key] = a
		} else {
			h := History{Name: name}
			if err := json.Unmarshal(data, &h.Steps); err != nil {
				return nil, nil, fmt.Errorf("%s: %v", name, err)
			}
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	if len(hs) == 0 && module != "" {
		return nil, nil, fmt.Errorf("no histories")
	}
	return answers, hs, nil
}

func (s *Site) describe(h History, upto int) string {
	b := new(strings.Builder)
	for i, st := range h.Steps[:upto+1] {
		switch st.Op {
		case "edit":
			what := "templates"
			text := ""
			if st.F > 0 {
				what = s.Files[st.F-1].Path
				if st.V > 0 {
					text = strings.Join(s.Files[st.F-1].Vs[st.V-1], "")
				}
			} else {
				text = s.Tmpls[st.V-1]
			}
			fmt.Fprintf(b, "%d. edit %s (version %d, time %s): %q\n", i+1, what, st.V, st.How, text)
		case "request":
			fmt.Fprintf(b, "%d. requests\n", i+1)
		default:
			fmt.Fprintf(b, "%d. %s of request %d\n", i+1, st.Op, st.R)
		}
	}
	return b.String()
}

// replaySequential replays histories of edits and requests one after another.
func (x *Ctx) replaySequential(site *Site, answers map[string][]Answer, hs []History) error {
	dir, err := os.MkdirTemp("", "verif-serve")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(hs); i += 8 {
				h := hs[i]
				mu.Lock()
				enough := len(x.Violations) >= 5
				mu.Unlock()
				if enough {
					return
				}
				bad, at := "", 0
				func() {
					run := newServerRun(site, filepath.Join(dir, fmt.Sprint(i)))
					defer run.close()
					defer func() {
						if p := recover(); p != nil {
							bad = fmt.Sprint("panic: ", p)
						}
					}()
					for j, st := range h.Steps {
						at = j
						switch st.Op {
						case "edit":
							if err := run.edit(st); err != nil {
								bad = "harness: " + err.Error()
								return
							}
						case "request":
							for u, path := range site.Urls {
								if d := run.differs(answers[st.Key][u], run.request(path), true); d != "" {
									bad = fmt.Sprintf("GET %s: %s", path, d)
									return
								}
							}
						}
					}
				}()
				mu.Lock()
				x.Seen(site.Name + h.Name)
				x.Traces++
				if bad != "" {
					x.Violation(bad+"\nafter\n"+site.describe(h, at), M{"site": site, "history": h})
				} else if len(h.Steps) > 3 {
					x.Sample(M{"site": site.Name, "history": h.Steps})
				}
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
	return nil
}

// routes requests all pages of generated documents; see Routes.tla.
func (x *Ctx) routes(p *Profile, n int) error {
	for round := 0; ; round++ {
		r := rand.New(rand.NewSource(x.Seed*1000003 + int64(round)*7919 + int64(hash(x.ID))))
		cases := []*Case{}
		for i := 1; i <= n; i++ {
			c := NewCase(r, p, i)
			c.Section, c.Tag, c.Single, c.Broken = "", "", false, false
			cases = append(cases, c)
		}
		if err := x.routesOf(cases); err != nil {
			return err
		}
		if x.quick() || len(x.Violations) > 0 || time.Until(x.Deadline) < 60*time.Second {
			return nil
		}
	}
}

func (x *Ctx) routesOf(cases []*Case) error {
	dir, err := os.MkdirTemp("", "verif-routes")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	file, out := filepath.Join(dir, "cases.ndjson"), filepath.Join(dir, "answers")
	os.MkdirAll(out, 0o755)
	if err := writeCases(file, cases); err != nil {
		return err
	}
	if keep := os.Getenv("VERIF_KEEP"); keep != "" {
		writeCases(keep+".routes", cases)
	}
	res, err := runTLC("Routes.tla", "Routes.cfg", []string{"CASES=" + file, "OUT=" + out}, 5*time.Minute)
	x.tlc(res)
	if err != nil {
		return err
	}
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintln(os.Stderr, "Routes", res.Wall, res.Generated)
	}
	if res.Violated != "" {
		return fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, tail(res.Output, 3000))
	}
	for i, c := range cases {
		data, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("%d.json", i+1)))
		if err != nil {
			return err
		}
		var answers []struct {
			U string `json:"u"`
			A Answer `json:"a"`
		}
		if err := json.Unmarshal(data, &answers); err != nil {
			return fmt.Errorf("case %d: %v", i+1, err)
		}
		site := &Site{Tmpls: []string{""}, Static: []string{"/other.txt", "/other.html"}}
		for _, f := range c.Files {
			if f.Path == c.Root {
				site.Files = append([]SiteFile{{f.Path, [][]string{f.Src}}}, site.Files...)
			} else {
				site.Files = append(site.Files, SiteFile{f.Path, [][]string{f.Src}})
			}
		}
		func() {
			run := newServerRun(site, filepath.Join(dir, fmt.Sprint("site", i)))
			defer run.close()
			u := ""
			defer func() {
				if p := recover(); p != nil {
					x.Violation(fmt.Sprintf("GET %s: panic: %v\n%s", u, p, c.Describe()), M{"case": c})
				}
			}()
			for k, a := range answers {
				u = a.U
				x.Seen(c.Key() + u)
				if d := run.differs(a.A, run.request(u), true); d != "" {
					x.Violation(fmt.Sprintf("GET %s: %s\n%s", u, d, c.Describe()), M{"case": c, "url": u})
					return
				}
				// the same requested in other ways: that makes no difference
				run.how = ways[(k+i)%len(ways)]
				w := run.request(u)
				run.how = nil
				if kind := w.Header().Get("Content-Type"); (a.A.Kind == "error" || a.A.Kind == "page" && strings.HasPrefix(strings.ToLower(w.Body.String()), "<!doctype html")) && kind != "" && !strings.HasPrefix(kind, "text/html") {
					x.Violation(fmt.Sprintf("GET %s: the page is %s\n%s", u, kind, c.Describe()), M{"case": c, "url": u})
					return
				}
				if d := run.differs(a.A, w, true); d != "" {
					x.Violation(fmt.Sprintf("GET %s, way %d: %s\n%s", u, (k+i)%len(ways), d, c.Describe()), M{"case": c, "url": u})
					return
				}
			}
		}()
		x.Traces++
	}
	return nil
}
