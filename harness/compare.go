package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Diff is a difference between what the specification says and what the
// implementation does.
type Diff struct {
	Aspect string // panic, stage, error, where, report, marks, log, tree, page, index, stripped, again
	Text   string
}

// compare lists the differences in all aspects.
func compare(c *Case, want *Outcome, real *Real) []Diff {
	diffs := []Diff{}
	add := func(aspect, format string, args ...any) {
		diffs = append(diffs, Diff{aspect, fmt.Sprintf(format, args...)})
	}
	if real.Panicked != "" {
		add("panic", "%s", real.Panicked)
		return diffs
	}
	for _, x := range real.Crossed {
		add("again", "%s", x)
	}

	wk, _ := want.Err["k"].(string)
	gk, _ := real.Err["k"].(string)
	wantErr := generic(want.Err).(M)
	gotErr := generic(real.Err).(M)
	switch {
	case want.Stage == "failed" && real.Stage != "failed":
		add("stage", "must fail with %s", show(want.Err["message"]))
	case want.Stage != "failed" && real.Stage == "failed":
		add("stage", "must not fail to load: %s", real.ErrText)
	case wk == "none" && gk != "none":
		add("stage", "must not fail to render: %s", real.ErrText)
	case wk != "none" && gk == "none":
		add("stage", "must fail with %s", show(want.Err["message"]))
	case wk == "none":
	default:
		diffError(add, want, wantErr, gotErr, real)
	}

	wl, gl := want.Log, real.Log
	if a, b := strings.Join(wl, "\n"), strings.Join(gl, "\n"); a != b {
		add("log", "calls: want %q, got %q", wl, gl)
	}
	if len(diffs) > 0 && (diffs[0].Aspect == "stage") {
		return diffs
	}

	if want.Tree != nil && real.Stage == "rendered" {
		if d := firstDiff("tree", normTree(generic(want.Tree)), normTree(generic(real.Tree))); d != "" {
			add("tree", "%s", d)
		}
	}
	if want.Stripped != nil {
		if d := firstDiff("stripped", normList(generic(want.Stripped)), normList(generic(real.Stripped))); d != "" {
			add("stripped", "%s", d)
		}
	}
	if wk == "none" && real.Stage == "rendered" {
		diffPages(add, c, want, real)
	}
	if want.Index != nil && real.Stage == "rendered" {
		diffIndex(add, c, want, real)
	}
	return diffs
}

func diffError(add func(string, string, ...any), want *Outcome, wantErr, gotErr M, real *Real) {
	wk := want.Err["k"].(string)
	if wk == "tmpl" || wk == "plain" {
		msg := want.Err["message"].(string)
		if want.Stage == "failed" {
			if real.ErrText != msg {
				add("error", "want error %q, got %q", msg, real.ErrText)
			}
		} else if !strings.Contains(real.ErrText, msg) || gotErr["k"] != "plain" {
			add("error", "want error %q, got %q", msg, real.ErrText)
		}
		return
	}
	where := []string{"file", "line", "col", "len", "first", "defs"}
	what := []string{"k", "fn", "tag", "similar", "err", "msg"}
	for _, k := range what {
		w, g := wantErr[k], gotErr[k]
		if k == "err" && w != nil {
			// of an error within an error only the message matters
			w = wantErr["err"].(M)["msg"]
			if m, ok := g.(M); ok {
				g = m["msg"]
			}
		}
		if w == nil {
			continue
		}
		if show(w) != show(g) {
			add("error", "error %s: want %s, got %s (%s)", k, show(w), show(g), real.ErrText)
			return
		}
	}
	for _, k := range where {
		if w, g := wantErr[k], gotErr[k]; w != nil && show(w) != show(g) {
			add("where", "error %s: want %s, got %s (%s)", k, show(w), show(g), real.ErrText)
			return
		}
	}
	wm, _ := wantErr["message"].(string)
	gm, _ := gotErr["message"].(string)
	parse := wk == "parse"
	if wm != gm && !(parse && strings.HasPrefix(gm, wm)) {
		add("error", "message: want %q, got %q", wm, gm)
	}
	wr, gr := splitLines(strs(wantErr["report"])), splitLines(strs(gotErr["report"]))
	for i := range wr {
		if i >= len(gr) {
			add("report", "report line %d: want %q, got nothing", i+1, wr[i])
			break
		}
		if wr[i] != gr[i] && !(parse && i == 0 && strings.HasPrefix(gr[i], wr[i])) {
			add("report", "report line %d: want %q, got %q", i+1, wr[i], gr[i])
			break
		}
	}
	if len(gr) > len(wr) {
		add("report", "report line %d: want the end, got %q", len(wr)+1, gr[len(wr)])
	}
	if d := firstDiff("marks", crLess(wantErr["marks"]), gotErr["marks"]); d != "" {
		add("marks", "%s", d)
	}
}

func strs(v any) []string {
	out := []string{}
	for _, x := range asList(v) {
		s, _ := x.(string)
		out = append(out, s)
	}
	return out
}

func diffPages(add func(string, string, ...any), c *Case, want *Outcome, real *Real) {
	names := map[string]bool{}
	pages := map[string]any{}
	for _, p := range want.Pages {
		names[p.Name] = true
		pages[p.Name] = p.Out
	}
	if want.Pages == nil {
		return
	}
	got := map[string]string{}
	for _, p := range real.Pages {
		s, _ := p.Out.(string)
		got[p.Name] = s
		if !names[p.Name] {
			add("pages", "page %q must not be written", p.Name)
		}
	}
	for _, p := range want.Pages {
		page, found := got[p.Name]
		if !found {
			add("pages", "page %q must be written", p.Name)
			continue
		}
		if c.Engine == "text" {
			w, _ := pages[p.Name].(string)
			if w != page {
				add("page", "page %q: want %q, got %q", p.Name, w, page)
			}
			continue
		}
		if d := diffLines(wantHTML(pages[p.Name]), gotHTML(page)); d != "" {
			add("page", "page %q: %s", p.Name, d)
		}
	}
}

func diffIndex(add func(string, string, ...any), c *Case, want *Outcome, real *Real) {
	byName := map[string]M{}
	for _, e := range real.Index {
		if m, ok := e.(M); ok {
			n, _ := m["name"].(string)
			byName[n] = m
		}
	}
	seen := map[string]bool{}
	for _, e := range want.Index {
		w := generic(e).(M)
		n, _ := w["name"].(string)
		seen[n] = true
		g, ok := byName[n]
		if !ok {
			add("index", "no entry for tag %q", n)
			continue
		}
		loc, _ := g["location"].(string)
		page, _ := w["page"].(string)
		frag, _ := w["frag"].(string)
		if canonicalURL(loc) != refURL(page, frag) {
			add("index", "entry %q: want location %s # %s, got %q", n, page, frag, loc)
		}
		for _, f := range [][2]string{{"title", "title"}, {"text", "text"}, {"depth", "depth"}, {"section", "section_tag"}} {
			if c.highlights() {
				// the summary of highlighted code has its markup
				if a, ok := w[f[0]].(string); ok {
					b, _ := g[f[1]].(string)
					if codeSummary(a) != codeSummary(b) {
						add("index", "entry %q: want %s %s, got %s", n, f[1], show(a), show(b))
					}
					continue
				}
			}
			if show(w[f[0]]) != show(g[f[1]]) {
				add("index", "entry %q: want %s %s, got %s", n, f[1], show(w[f[0]]), show(g[f[1]]))
			}
		}
	}
	for n := range byName {
		if !seen[n] {
			add("index", "unexpected entry for tag %q", n)
		}
	}
}

func decodeOutcome(data []byte) (*Outcome, error) {
	o := &Outcome{}
	err := json.Unmarshal(data, o)
	return o, err
}

// crLess replaces carriage returns as HTML does.
func crLess(v any) any {
	switch x := v.(type) {
	case []any:
		out := []any{}
		for _, y := range x {
			out = append(out, crLess(y))
		}
		return out
	case string:
		return strings.ReplaceAll(strings.ReplaceAll(x, "\r\n", "\n"), "\r", "\n")
	}
	return v
}

// splitLines splits messages of several lines, without blank lines at the end.
func splitLines(s []string) []string {
	out := []string{}
	for _, l := range strings.Split(strings.TrimRight(strings.Join(s, "\n"), "\n"), "\n") {
		out = append(out, l)
	}
	return out
}
