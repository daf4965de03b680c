package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Ctx is the run of a check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Start    time.Time
	Deadline time.Time

	Violations []string
	Known      []string
	Notes      []string
	Samples    []any
	Evals      int
	Distinct   map[string]bool
	Traces     int
	States     int
	Trans      int
	Extra      map[string]any
	Exhaustive bool
}

// Check decides a property.
type Check struct {
	ID    string
	Title string
	Rule  string
	Level string
	Run   func(*Ctx) error
}

var checks = map[string]*Check{}

func (x *Ctx) quick() bool { return x.Tier != "thorough" }

// n is the number of cases: more for a thorough run
func (x *Ctx) n(quick, thorough int) int {
	if x.quick() {
		return quick
	}
	return thorough
}

// Violation records one, with what is needed to see it again.
func (x *Ctx) Violation(what string, replay any) {
	if len(x.Violations) >= 5 {
		return
	}
	dir := filepath.Join(verifDir, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", x.ID, len(x.Violations)+1))
	data, _ := json.MarshalIndent(M{"property": x.ID, "what": what, "replay": replay}, "", " ")
	os.WriteFile(path, data, 0o644)
	x.Violations = append(x.Violations, what)
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, path)
	fmt.Println(indent(tail2(what, 2500)))
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indent(s string) string { return "  " + strings.ReplaceAll(s, "\n", "\n  ") }

// Sample keeps a few of the cases.
func (x *Ctx) Sample(v any) {
	if len(x.Samples) < 4 {
		x.Samples = append(x.Samples, v)
	}
}

// Seen counts a case; key is empty if it is trivial.
func (x *Ctx) Seen(key string) {
	x.Evals++
	if key != "" {
		x.Distinct[key] = true
	}
}

func (x *Ctx) tlc(res *TLCResult) {
	if res != nil {
		x.States += res.Distinct
		x.Trans += res.Generated
	}
}

func runCheck(id string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	x := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), Seed: seed, Start: time.Now(), Distinct: map[string]bool{}, Extra: M{}}
	if x.Tier != "thorough" {
		x.Tier = "quick"
	}
	// a thorough run goes on for some minutes
	x.Deadline = x.Start.Add(10 * time.Minute)
	if x.quick() {
		x.Deadline = x.Start.Add(2 * time.Minute)
	}
	if err := c.Run(x); err != nil && len(x.Violations) == 0 {
		fmt.Fprintln(os.Stderr, "the check did not work:", err)
		return 2
	}
	return x.finish(c)
}

// finish writes the evidence.
func (x *Ctx) finish(c *Check) int {
	id := x.ID
	for _, k := range x.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	cov := M{
		"evaluations": x.Evals, "distinct_nontrivial": len(x.Distinct), "rule": c.Rule,
		"states": x.States, "transitions": x.Trans, "traces_validated_against_impl": x.Traces,
		"samples": x.Samples,
	}
	if x.Exhaustive {
		cov["exhaustive"] = true
	}
	for k, v := range x.Extra {
		cov[k] = v
	}
	if len(x.Notes) > 0 {
		cov["notes"] = x.Notes
	}
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	ev := M{"property": id, "tier": x.Tier, "seed": x.Seed, "level": level, "coverage": cov,
		"wall_s": time.Since(x.Start).Seconds(), "violations": len(x.Violations)}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d cases (%d distinct and non-trivial), %d states, %d traces, %d violations, %.1f s\n", id, x.Tier,
		x.Evals, len(x.Distinct), x.States, x.Traces, len(x.Violations), time.Since(x.Start).Seconds())
	if len(x.Violations) > 0 {
		return 1
	}
	return 0
}

// Docs says how generated documents decide a property.
type Docs struct {
	Profile  func(*Profile)      // what documents are made of
	Aspects  string              // what is compared, separated by spaces
	Quick    int                 // number of documents
	NonTriv  func(*Outcome) bool // whether a case says anything about the property
	Edit     func(*rand.Rand, *Case)
	Extra    func(*Ctx, *Case, *Outcome, *Real) string // a further check of the property itself
	Prepared func(*rand.Rand, int) []*Case
	Command  func(*rand.Rand, *CliRun) // also have the command build documents; sets its options
	Also     []func(*Profile)          // variants of the profile: every fourth document is made by one
}

// docs compares the behaviour of the implementation with that of the
// specification.
func (x *Ctx) docs(d Docs) error {
	if d.Quick == 0 {
		d.Quick = 400
	}
	p := base(x.ID)
	if d.Profile != nil {
		d.Profile(p)
	}
	var also []*Profile
	for _, vary := range d.Also {
		q := base(x.ID)
		if d.Profile != nil {
			d.Profile(q)
		}
		vary(q)
		also = append(also, q)
	}
	for _, p := range plans(x.ID, x.quick()) {
		if err := x.explore(p, d); err != nil {
			return err
		}
	}
	seed := x.Seed
	for round := 0; ; round++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(round)*7919 + int64(hash(x.ID))))
		n := d.Quick
		if !x.quick() {
			n = 1000
		}
		var cases []*Case
		if d.Prepared != nil {
			cases = d.Prepared(r, n)
		} else {
			for i := 1; i <= n; i++ {
				q := p
				if i%4 == 0 && len(also) > 0 {
					q = also[i/4%len(also)]
				}
				c := NewCase(r, q, i)
				if d.Edit != nil {
					d.Edit(r, c)
				}
				cases = append(cases, c)
			}
		}
		if err := x.compareAll(cases, d); err != nil {
			return err
		}
		if d.Command != nil && len(x.Violations) == 0 {
			if err := x.commanded(r, p, d.Command); err != nil {
				return err
			}
		}
		if x.quick() || len(x.Violations) > 0 || time.Until(x.Deadline) < 40*time.Second {
			return nil
		}
	}
}

func hash(s string) uint32 {
	h := uint32(2166136261)
	for _, c := range s {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

func (x *Ctx) compareAll(cases []*Case, d Docs) error {
	want, res, err := expect(cases)
	x.tlc(res)
	if err != nil {
		return err
	}
	if res.Violated != "" {
		desc := ""
		if m := regexp.MustCompile(`(?m)^/\\ n = (\d+)$`).FindAllStringSubmatch(res.Output, -1); m != nil {
			i, _ := strconv.Atoi(m[len(m)-1][1])
			desc = cases[i-1].Describe()
		}
		return fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, desc)
	}
	real, err := runReal(cases)
	if err != nil {
		return err
	}
	x.judge(cases, want, real, d)
	return nil
}

func (x *Ctx) judge(cases []*Case, want map[int]*Outcome, real map[int]*Real, d Docs) {
	aspects := map[string]bool{"panic": true}
	for _, a := range strings.Fields(d.Aspects) {
		aspects[a] = true
	}
	kinds, _ := x.Extra["outcomes"].(map[string]int)
	if kinds == nil {
		kinds = map[string]int{}
		x.Extra["outcomes"] = kinds
	}
	for _, c := range cases {
		w, g := want[c.ID], real[c.ID]
		if w == nil || g == nil {
			continue
		}
		kinds[w.Stage+"/"+fmt.Sprint(w.Err["k"])]++
		key := ""
		if d.NonTriv == nil || d.NonTriv(w) {
			key = c.Key()
		}
		x.Seen(key)
		x.Traces++
		if key != "" && c.Size() < 300 {
			x.Sample(M{"files": c.Texts(), "engine": c.Engine, "outcome": w.Stage, "error": w.Err["k"]})
		}
		found := []string{}
		for _, diff := range compare(c, w, g) {
			if aspects[diff.Aspect] {
				found = append(found, diff.Aspect+": "+diff.Text)
			}
		}
		if d.Extra != nil && g.Panicked == "" {
			if s := d.Extra(x, c, w, g); s != "" {
				found = append(found, s)
			}
		}
		if len(found) > 0 {
			x.Violation(strings.Join(found, "\n")+"\n"+c.Describe(), c)
		}
	}
}

// Key identifies a case.
func (c *Case) Key() string {
	s := fmt.Sprint(c.Engine, c.Ext, c.Tmpl, c.Broken, c.Section, c.Tag, c.Single)
	for _, f := range c.Files {
		s += "\x00" + f.Path + "\x00" + f.Text()
	}
	return s
}

// Texts are the files of a case.
func (c *Case) Texts() map[string]string {
	m := map[string]string{}
	for _, f := range c.Files {
		m[f.Path] = f.Text()
	}
	return m
}

// Describe shows a case.
func (c *Case) Describe() string {
	s := fmt.Sprintf("engine=%s ext=%s templates=%q broken=%v section=%q tag=%q single=%v", c.Engine, c.Ext, c.Tmpl, c.Broken, c.Section, c.Tag, c.Single)
	for _, f := range c.Files {
		s += fmt.Sprintf("\n---- %s\n%s", f.Path, f.Text())
	}
	return s
}

func checkIDs() []string {
	ids := []string{}
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
