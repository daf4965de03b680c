package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Piece is something that documents are put together from; see Author.tla.
type Piece struct {
	Text   []string `json:"text"`
	Close  []string `json:"close"`
	Kind   string   `json:"kind"`
	Pop    bool     `json:"pop"`
	Within []string `json:"within"`
	Cost   int      `json:"cost"`
}

// Plan says which documents are written; see Author.tla.
type Plan struct {
	Name     string   `json:"name"`
	Prefix   []string `json:"prefix"`
	Suffix   []string `json:"suffix"`
	Max      int      `json:"max"`
	Pieces   []Piece  `json:"pieces"`
	Variants []*Case  `json:"variants"`
}

// leaf is a piece that opens nothing.
func leaf(text string, within ...string) Piece {
	if within == nil {
		within = []string{}
	}
	return Piece{Text: chars(text), Close: []string{}, Within: within, Cost: 1}
}

// opener is a piece that has to be closed.
func opener(text, close, kind string, within ...string) Piece {
	p := leaf(text, within...)
	p.Close, p.Kind = chars(close), kind
	return p
}

// closer closes what was opened last; it costs nothing if that can only be done
// once for each opener.
func closer() Piece {
	p := leaf("")
	p.Pop = true
	return p
}

func (p Piece) costs(n int) Piece { p.Cost = n; return p }

// plan describes an exploration.
func plan(name string, max int, prefix, suffix string, pieces ...Piece) *Plan {
	return &Plan{Name: name, Prefix: chars(prefix), Suffix: chars(suffix), Max: max, Pieces: pieces}
}

// with sets the ways in which each document is built.
func (p *Plan) with(want string, engines ...string) *Plan {
	for _, e := range engines {
		c := &Case{Root: "main.lit", Files: []File{}, Engine: "html", Ext: "html", Want: strings.Fields(want)}
		parts := strings.Split(e, "/")
		c.Engine = parts[0]
		if c.Engine == "text" {
			c.Ext = "txt"
		}
		for _, o := range parts[1:] {
			switch o {
			case "broken":
				c.Broken = true
			case "single":
				c.Single = true
			default:
				c.Tmpl = o
			}
		}
		p.Variants = append(p.Variants, c)
	}
	return p
}

// file adds a file to every document.
func (p *Plan) file(path, text string) *Plan {
	for _, v := range p.Variants {
		v.Files = append(v.Files, File{path, chars(text)})
	}
	return p
}

// author lets the specification write all documents of a plan, and say what
// each leads to.
func (x *Ctx) author(p *Plan) ([]*Case, map[int]*Outcome, error) {
	dir, err := os.MkdirTemp("", "verif-author")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "plan.ndjson")
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	data, _ := json.Marshal(p)
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return nil, nil, err
	}
	limit := 5 * time.Minute
	if !x.quick() {
		limit = 9 * time.Minute
	}
	res, err := runTLC("Author.tla", "Author.cfg", []string{"PIECES=" + file, "CASES=" + file, "OUT=" + out}, limit)
	x.tlc(res)
	if err != nil {
		return nil, nil, err
	}
	if res.Violated != "" {
		return nil, nil, fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, tail(res.Output, 3000))
	}
	entries, err := os.ReadDir(out)
	if err != nil {
		return nil, nil, err
	}
	names := []string{}
	for _, e := range entries {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	cases := []*Case{}
	want := map[int]*Outcome{}
	for i, name := range names {
		data, err := os.ReadFile(filepath.Join(out, name))
		if err != nil {
			return nil, nil, err
		}
		var r struct {
			Doc     *Case           `json:"doc"`
			Outcome json.RawMessage `json:"outcome"`
		}
		if err := json.Unmarshal(data, &r); err != nil {
			return nil, nil, fmt.Errorf("%s: %v", name, err)
		}
		o, err := decodeOutcome(r.Outcome)
		if err != nil {
			return nil, nil, fmt.Errorf("%s: %v", name, err)
		}
		r.Doc.ID = i + 1
		o.ID = i + 1
		cases = append(cases, r.Doc)
		want[i+1] = o
	}
	return cases, want, nil
}

// explore compares the behaviour of the implementation with that of the
// specification on all documents of a plan.
func (x *Ctx) explore(p *Plan, d Docs) error {
	start := time.Now()
	cases, want, err := x.author(p)
	if err != nil {
		return fmt.Errorf("%s: %w", p.Name, err)
	}
	tlc := time.Since(start).Seconds()
	real, err := runReal(cases)
	if err != nil {
		return err
	}
	run := time.Since(start).Seconds()
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintln(os.Stderr, p.Name, len(cases), "tlc", tlc, "real", run-tlc)
	}
	d.NonTriv, d.Extra = nil, nil
	x.judge(cases, want, real, d)
	spaces, _ := x.Extra["enumerated_completely"].([]any)
	x.Extra["enumerated_completely"] = append(spaces, M{"space": p.Name, "max": p.Max, "pieces": len(p.Pieces),
		"documents": len(cases), "wall_s": time.Since(start).Seconds()})
	return nil
}
