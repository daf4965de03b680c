package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
)

// TmplSite says which histories of templates there are; see Templates.tla.
type TmplSite struct {
	Kinds     [][]string `json:"kinds"`
	Ops       []Op       `json:"ops"`
	Rounds    int        `json:"rounds"`
	Newer     bool       `json:"newer"`
	Forgetful bool       `json:"forgetful"`
	Sloppy    bool       `json:"sloppy"`
}

var tmplNames = []string{"page", "fancy", "inset", "helper"}

// tmplText is the text of a version of a template.
func tmplText(kind string, i, v int) string {
	content := []string{"{{. | render}}", "{{.Body | render}}", "{{.Content | render}}", ""}[i]
	mark := fmt.Sprintf("[%s:%d]", tmplNames[i], v)
	switch kind {
	case "good":
		return mark + content + "\n"
	case "uses":
		return mark + `{{template "helper.tmpl" .}}` + content + "\n"
	case "blank":
		return []string{"", "{{/* nothing */}}\n", " \n"}[(i+v)%3]
	case "bad":
		return mark + content + "{{if}}"
	case "fails":
		return mark + "{{.Nope.Nope}}"
	}
	return "?"
}

type tmplEngine interface {
	render.Engine
	LoadTemplates(string) error
}

var reMark = regexp.MustCompile(`\[[a-z]+:\d\]|<title>|<div[^>]*class="inset"|    x|^T\n`)

func marksOf(out string) string {
	ms := []string{}
	for _, m := range reMark.FindAllString(out, -1) {
		switch {
		case m[0] == '[':
			m = m[1 : len(m)-1]
		case m == "<title>" || m == "T\n":
			m = "page:0"
		default:
			m = "inset:0"
		}
		ms = append(ms, m)
	}
	return strings.Join(ms, " ")
}

// templateHistories decides C24.
func (x *Ctx) templateHistories(name string, site *TmplSite) error {
	dir, err := os.MkdirTemp("", "verif-tmpl")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	start := time.Now()
	hs, err := x.behaviours("Templates", site, dir)
	if err != nil {
		return fmt.Errorf("%s: %w", name, err)
	}
	main := filepath.Join(dir, "main.lit")
	if err := os.WriteFile(main, []byte("\\title{T}\n\n\\styled{fancy}\n\n\\inset{x}\n"), 0o644); err != nil {
		return err
	}
	section, err := (&load.Processor{}).LoadFile(main, basePlugins)
	if err != nil {
		return err
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(hs); i += 8 {
				h := hs[i]
				mu.Lock()
				enough := len(x.Violations) >= 5
				mu.Unlock()
				if enough {
					return
				}
				for _, kind := range []string{"html", "text"} {
					d := filepath.Join(dir, fmt.Sprint("t", i))
					var eng tmplEngine = render.NewHTMLEngine()
					if kind == "text" {
						eng = render.NewTextEngine("txt")
					}
					bad, at := site.replay(h, d, eng, section)
					os.RemoveAll(d)
					mu.Lock()
					x.Seen(name + kind + h.Name)
					x.Traces++
					if bad != "" {
						x.Violation(fmt.Sprintf("%s engine: %s\nafter\n%s", kind, bad, site.describe(h, at)), M{"site": site, "history": h, "engine": kind})
					} else if len(h.Steps) > 4 {
						x.Sample(M{"history": h.Steps, "engine": kind})
					}
					mu.Unlock()
				}
			}
		}(k)
	}
	wg.Wait()
	x.space(name, len(hs), start)
	return nil
}

func (s *TmplSite) describe(h TmplHistory, upto int) string {
	b := new(strings.Builder)
	for i, st := range h.Steps[:upto+1] {
		if st.Op != "edit" {
			fmt.Fprintf(b, "%d. %s\n", i+1, st.Op)
		} else if st.V == 0 {
			fmt.Fprintf(b, "%d. remove %s.tmpl\n", i+1, tmplNames[st.F-1])
		} else {
			fmt.Fprintf(b, "%d. write %s.tmpl (version %d, time %s): %q\n", i+1, tmplNames[st.F-1], st.V, st.How, tmplText(s.Kinds[st.F-1][st.V-1], st.F-1, st.V))
		}
	}
	return b.String()
}

// replay does what happens in a history with a real engine.
func (s *TmplSite) replay(h TmplHistory, dir string, eng tmplEngine, section *booklit.Section) (bad string, at int) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprint("panic: ", p)
		}
	}()
	os.MkdirAll(dir, 0o755)
	clock := 1000
	edit := func(st TmplStep) error {
		path := filepath.Join(dir, tmplNames[st.F-1]+".tmpl")
		clock++
		if st.V == 0 {
			if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
				return err
			}
			return nil
		}
		t := theTime.Add(time.Duration(st.V) * time.Millisecond)
		if st.How == "now" {
			t = theTime.Add(time.Duration(clock) * time.Millisecond)
		}
		if err := os.WriteFile(path+".new", []byte(tmplText(s.Kinds[st.F-1][st.V-1], st.F-1, st.V)), 0o644); err != nil {
			return err
		}
		if err := os.Chtimes(path+".new", t, t); err != nil {
			return err
		}
		return os.Rename(path+".new", path)
	}
	if err := edit(TmplStep{F: 2, V: 1, How: "kept"}); err != nil {
		return "harness: " + err.Error(), 0
	}
	clock = 1000
	for i, st := range h.Steps {
		at = i
		switch st.Op {
		case "edit":
			if err := edit(st); err != nil {
				return "harness: " + err.Error(), at
			}
		case "use":
			lerr := eng.LoadTemplates(dir)
			buf := new(bytes.Buffer)
			rerr := eng.RenderSection(buf, section)
			got := marksOf(buf.String())
			if rerr != nil {
				got = "error"
			}
			if !st.OK {
				if lerr == nil {
					return "the broken template is not reported", at
				}
				if before := strings.Join(st.Before, " "); got != before && got != "error" {
					return fmt.Sprintf("after the templates failed to load %q was shown; before it was %q", got, before), at
				}
				continue
			}
			if lerr != nil {
				return fmt.Sprintf("the templates on disk are good, but fail to load: %v", lerr), at
			}
			if want := strings.Join(st.Shown, " "); got != want {
				return fmt.Sprintf("want %q to be shown, got %q (%v)", want, got, rerr), at
			}
		}
	}
	return "", at
}

// TmplStep is a step of a history of templates.
type TmplStep struct {
	Op     string   `json:"op"`
	F      int      `json:"f"`
	V      int      `json:"v"`
	How    string   `json:"how"`
	OK     bool     `json:"ok"`
	Shown  []string `json:"shown"`
	Before []string `json:"before"`
}

// TmplHistory is a history of templates.
type TmplHistory struct {
	Name  string
	Steps []TmplStep
}

func (x *Ctx) behaviours(module string, site *TmplSite, dir string) ([]TmplHistory, error) {
	hs := []TmplHistory{}
	err := x.published(module, site, func(name string, data []byte) error {
		h := TmplHistory{Name: name}
		err := json.Unmarshal(data, &h.Steps)
		hs = append(hs, h)
		return err
	})
	return hs, err
}

// published runs TLC on a module and hands over what it has published.
func (x *Ctx) published(module string, site any, each func(name string, data []byte) error) error {
	dir, err := os.MkdirTemp("", "verif-pub")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "site.ndjson")
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	if s, ok := site.(*Site); ok {
		s.full()
	}
	data, _ := json.Marshal(site)
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return err
	}
	if keep := os.Getenv("VERIF_KEEP"); keep != "" {
		os.WriteFile(keep, data, 0o644)
	}
	res, err := runTLC(module+".tla", module+".cfg", []string{"SITE=" + file, "OUT=" + out}, 8*time.Minute)
	x.tlc(res)
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintln(os.Stderr, module, res.Wall, res.Generated)
	}
	if err != nil {
		return err
	}
	if res.Violated != "" {
		return fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, tail(res.Output, 3000))
	}
	entries, err := os.ReadDir(out)
	if err != nil {
		return err
	}
	if len(entries) == 0 {
		return fmt.Errorf("%s: nothing was published", module)
	}
	for _, e := range entries {
		data, err := os.ReadFile(filepath.Join(out, e.Name()))
		if err == nil {
			err = each(strings.TrimSuffix(e.Name(), ".json"), data)
		}
		if err != nil {
			return fmt.Errorf("%s: %v", e.Name(), err)
		}
	}
	return nil
}

// mistaken checks that the specification of a mistaken system breaks an
// invariant: otherwise the invariants would say nothing.
func (x *Ctx) mistaken(module, what string, site any) error {
	dir, err := os.MkdirTemp("", "verif-mistaken")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "site.ndjson")
	if s, ok := site.(*Site); ok {
		s.full()
	}
	data, _ := json.Marshal(site)
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return err
	}
	res, err := runTLC(module+".tla", module+".cfg", []string{"SITE=" + file, "OUT=" + dir}, 3*time.Minute)
	if err != nil {
		return err
	}
	if res.Violated == "" {
		return fmt.Errorf("%s: the specification of a system which is %s breaks no invariant", module, what)
	}
	list, _ := x.Extra["mistaken_designs_rejected"].([]string)
	x.Extra["mistaken_designs_rejected"] = append(list, what+": "+res.Violated)
	return nil
}
