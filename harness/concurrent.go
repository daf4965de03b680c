package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Traced is what was recorded of a server; see Trace.tla.
type Traced struct {
	Init   []int        `json:"init"`
	Events []TraceEvent `json:"events"`
	What   string       `json:"what"`
}

// TraceEvent is one of them.
type TraceEvent struct {
	E   string  `json:"e"`
	F   int     `json:"f"`
	V   int     `json:"v"`
	R   int     `json:"r"`
	May [][]int `json:"may"`
	URL int     `json:"url"`

	url  int
	body string
	code int
}

// recorder collects the events of one trace.
type recorder struct {
	mu    sync.Mutex
	trace Traced
}

func (t *recorder) add(e TraceEvent) {
	if e.May == nil {
		e.May = [][]int{}
	}
	t.mu.Lock()
	t.trace.Events = append(t.trace.Events, e)
	t.mu.Unlock()
}

// fits finds the states of the files for which a response is the answer.
type fits struct {
	mu      sync.Mutex
	site    *Site
	answers map[string][]Answer
	seen    map[string][][]int
}

// stateOfKey turns a key of Site.tla into a state with the templates last.
func stateOfKey(key string) []int {
	parts := strings.Split(key, "-")
	out := []int{}
	for _, p := range append(parts[1:], parts[0]) {
		n, _ := strconv.Atoi(p)
		out = append(out, n)
	}
	return out
}

// the text of an error page, without the lines of the source, which may have
// changed since
func (m *fits) of(run *serverRun, url, code int, body string) [][]int {
	key := fmt.Sprint(url, " ", code, " ", stripDir(body, run.dir))
	m.mu.Lock()
	got, ok := m.seen[key]
	m.mu.Unlock()
	if ok {
		return got
	}
	out := [][]int{}
	w := httptest.NewRecorder()
	w.Code = code
	w.Body = bytes.NewBufferString(body)
	for k, as := range m.answers {
		if run.differs(as[url], w, false) == "" {
			out = append(out, stateOfKey(k))
		}
	}
	m.mu.Lock()
	m.seen[key] = out
	m.mu.Unlock()
	return out
}

// goid is the number of the running goroutine.
func goid() int {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	n, _ := strconv.Atoi(string(bytes.Fields(buf)[1]))
	return n
}

// driver makes requests follow a schedule.
type driver struct {
	run     *serverRun
	rec     *recorder
	mu      sync.Mutex
	who     map[int]int // goroutine -> request
	open    bool        // the gates are open
	release map[int]chan bool
	state   map[int]string // "running", "parked", "done"
	changed chan int
	patient time.Duration
}

func newDriver(run *serverRun, rec *recorder) *driver {
	d := &driver{run: run, rec: rec, who: map[int]int{}, release: map[int]chan bool{}, state: map[int]string{}, changed: make(chan int, 100)}
	run.state.Gate = func(string) {
		g := goid()
		d.mu.Lock()
		r, ok := d.who[g]
		if !ok || d.open {
			d.mu.Unlock()
			return
		}
		d.state[r] = "parked"
		ch := d.release[r]
		d.mu.Unlock()
		d.changed <- r
		<-ch
	}
	return d
}

func (d *driver) stateOf(r int) string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.state[r]
}

// settle waits until the request has stopped somewhere; one which does not is
// taken to be waiting for others.
func (d *driver) settle(r int) {
	timeout := time.After(d.patient)
	for d.stateOf(r) == "running" {
		select {
		case <-d.changed:
		case <-timeout:
			return
		}
	}
}

func (d *driver) start(r, u int) {
	ch := make(chan bool, 10)
	d.mu.Lock()
	d.state[r] = "running"
	d.release[r] = ch
	d.mu.Unlock()
	d.rec.add(TraceEvent{E: "start", R: r})
	go func() {
		d.mu.Lock()
		d.who[goid()] = r
		d.mu.Unlock()
		w := httptest.NewRecorder()
		defer func() {
			if p := recover(); p != nil {
				w.Code = -1
				w.Body = bytes.NewBufferString(fmt.Sprint("panic: ", p))
			}
			d.mu.Lock()
			d.state[r] = "done"
			d.mu.Unlock()
			d.rec.add(TraceEvent{E: "end", R: r, url: u, code: w.Code, body: w.Body.String()})
			d.changed <- r
		}()
		d.run.serve(w, d.run.site.Urls[u])
	}()
	d.settle(r)
}

// goOn lets a request go on to its next gate.
func (d *driver) goOn(r int) {
	d.mu.Lock()
	switch d.state[r] {
	case "parked":
		d.state[r] = "running"
		d.release[r] <- true
	case "done":
		d.mu.Unlock()
		return
	}
	d.mu.Unlock()
	d.settle(r)
}

// finish opens all gates and waits for the requests.
func (d *driver) finish() bool {
	d.mu.Lock()
	d.open = true
	for r, s := range d.state {
		if s == "parked" {
			d.state[r] = "running"
			d.release[r] <- true
		}
	}
	d.mu.Unlock()
	end := time.Now().Add(20 * time.Second)
	for {
		all := true
		d.mu.Lock()
		for _, s := range d.state {
			if s != "done" {
				all = false
			}
		}
		d.mu.Unlock()
		if all {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		select {
		case <-d.changed:
		case <-time.After(10 * time.Millisecond):
		}
	}
}

func (r *recorder) edit(run *serverRun, st Step) error {
	f := st.F
	if f == 0 {
		f = len(run.site.Files) + 1
	}
	r.add(TraceEvent{E: "begin", F: f, V: st.V})
	err := run.edit(st)
	r.add(TraceEvent{E: "edited", F: f, V: st.V})
	return err
}

func first(site *Site) []int {
	out := []int{}
	for range site.Files {
		out = append(out, 1)
	}
	return append(out, 1)
}

// resolve replaces what was answered by the states which it fits.
func (t *Traced) resolve(run *serverRun, m *fits) {
	for i := range t.Events {
		if e := &t.Events[i]; e.E == "end" {
			e.May = m.of(run, e.url, e.code, e.body)
		}
	}
}

// follow replays one schedule.
func (site *Site) follow(h History, dir string, m *fits, patient func() time.Duration) (*Traced, string) {
	run := newServerRun(site, dir)
	defer run.close()
	rec := &recorder{trace: Traced{Init: first(site)}}
	d := newDriver(run, rec)
	d.patient = patient()
	started := 0
	for _, st := range h.Steps {
		switch st.Op {
		case "go":
			if d.stateOf(st.R) == "" {
				d.start(st.R, (st.R-1)%len(site.Urls))
				started++
			} else {
				d.goOn(st.R)
			}
		case "edit":
			if err := rec.edit(run, st); err != nil {
				return nil, "harness: " + err.Error()
			}
		}
	}
	if !d.finish() {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		return nil, "a request is blocked for ever\n" + tail2(string(buf), 8000)
	}
	// what the server answers when all is over
	for u, path := range site.Urls {
		rec.add(TraceEvent{E: "start", R: 100 + u})
		w, err := run.requestErr(path)
		if err != "" {
			return nil, err
		}
		rec.add(TraceEvent{E: "end", R: 100 + u, url: u, code: w.Code, body: w.Body.String()})
	}
	rec.trace.resolve(run, m)
	return &rec.trace, ""
}

// schedules decides C25 by replaying schedules of the specification.
func (x *Ctx) schedules(site *Site) error {
	start := time.Now()
	answers, hs, err := x.histories("Requests", site, 8*time.Minute)
	if err != nil {
		return fmt.Errorf("%s: %w", site.Name, err)
	}
	for _, a := range answers["1-1-1"] {
		if a.Kind != "page" {
			return fmt.Errorf("%s: the site does not work at first: %v", site.Name, a)
		}
	}
	dir, err := os.MkdirTemp("", "verif-conc")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	m := &fits{site: site, answers: answers, seen: map[string][][]int{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	waits := 0
	// a design with other locks may make requests wait in other places
	patient := func() time.Duration {
		mu.Lock()
		defer mu.Unlock()
		if waits > 40 {
			return 20 * time.Millisecond
		}
		return 300 * time.Millisecond
	}
	traces := make([]*Traced, len(hs))
	next := make(chan int)
	go func() {
		for i := range hs {
			next <- i
		}
		close(next)
	}()
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				mu.Lock()
				enough := len(x.Violations) >= 5
				mu.Unlock()
				if enough {
					continue
				}
				begin := time.Now()
				tr, bad := site.follow(hs[i], filepath.Join(dir, fmt.Sprint(i)), m, patient)
				mu.Lock()
				if time.Since(begin) > 300*time.Millisecond {
					waits++
				}
				x.Seen(site.Name + hs[i].Name)
				x.Traces++
				if bad != "" {
					x.Violation(bad+"\nafter\n"+site.describe(hs[i], len(hs[i].Steps)-1), M{"site": site, "history": hs[i]})
				} else {
					traces[i] = tr
					if len(hs[i].Steps) > 6 {
						x.Sample(M{"site": site.Name, "schedule": hs[i].Name, "trace": tr.Events})
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if len(x.Violations) > 0 {
		return nil
	}
	for i, t := range traces {
		t.What = site.describe(hs[i], len(hs[i].Steps)-1)
	}
	if err := x.validate(site, traces); err != nil {
		return err
	}
	x.space(site.Name, len(hs), start)
	return nil
}

// validate lets the specification judge recorded traces.
func (x *Ctx) validate(site *Site, traces []*Traced) error {
	dir, err := os.MkdirTemp("", "verif-trace")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file, out := filepath.Join(dir, "traces.ndjson"), filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	// states which cannot have been there need not be handed over
	const batch = 400
	if len(traces) > batch {
		if err := x.validate(site, traces[:batch]); err != nil || len(x.Violations) >= 5 {
			return err
		}
		return x.validate(site, traces[batch:])
	}
	buf := new(bytes.Buffer)
	for _, t := range traces {
		was := []map[int]bool{}
		for _, v := range t.Init {
			was = append(was, map[int]bool{v: true})
		}
		for _, e := range t.Events {
			if e.E == "begin" {
				was[e.F-1][e.V] = true
			}
		}
		sets, number := [][][]int{{}}, map[string]int{}
		events := []M{}
		for _, e := range t.Events {
			set := [][]int{}
		states:
			for _, k := range e.May {
				for f, v := range k {
					if !was[f][v] {
						continue states
					}
				}
				set = append(set, k)
			}
			sort.Slice(set, func(i, j int) bool { return fmt.Sprint(set[i]) < fmt.Sprint(set[j]) })
			key := fmt.Sprint(set)
			if number[key] == 0 {
				sets = append(sets, set)
				number[key] = len(sets)
			}
			events = append(events, M{"e": e.E, "f": e.F, "v": e.V, "r": e.R, "may": number[key]})
		}
		data, _ := json.Marshal(M{"init": t.Init, "events": events, "sets": sets})
		buf.Write(append(data, '\n'))
	}
	if err := os.WriteFile(file, buf.Bytes(), 0o644); err != nil {
		return err
	}
	if keep := os.Getenv("VERIF_KEEP"); keep != "" {
		os.WriteFile(keep+"."+strings.ReplaceAll(site.Name, " ", "-")+".traces", buf.Bytes(), 0o644)
	}
	res, err := runTLC("Trace.tla", "Trace.cfg", []string{"TRACES=" + file, "OUT=" + out}, 8*time.Minute)
	x.tlc(res)
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintln(os.Stderr, "Trace", len(traces), res.Wall, res.Generated)
	}
	if err != nil {
		return err
	}
	if res.Violated != "" {
		return fmt.Errorf("Trace.tla: %s", tail(res.Output, 2000))
	}
	for i, t := range traces {
		data, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("%d.json", i+1)))
		if err != nil {
			return err
		}
		var verdict struct{ Bad, Open []int }
		if err := json.Unmarshal(data, &verdict); err != nil {
			return err
		}
		if len(verdict.Open) > 0 {
			return fmt.Errorf("trace %d: requests without an end: %v", i, verdict.Open)
		}
		for _, b := range verdict.Bad {
			e := t.Events[b-1]
			when := "no state of the files between its start and its end explains the answer"
			if len(e.May) == 0 {
				when = "no state of the files at all explains the answer"
			}
			log := new(strings.Builder)
			for j, ev := range t.Events[:b] {
				switch ev.E {
				case "begin", "edited":
					fmt.Fprintf(log, "%d. %s: file %d, version %d\n", j+1, ev.E, ev.F, ev.V)
				default:
					fmt.Fprintf(log, "%d. %s: request %d %s\n", j+1, ev.E, ev.R, atMost(fmt.Sprint(ev.May), 60))
				}
			}
			x.Violation(fmt.Sprintf("request %d, GET %s: %s: status %d, %s\ntrace (files numbered, templates last)\n%s%s", e.R, site.Urls[e.url], when, e.code,
				tail2(strings.Join(strings.Fields(pageText(e.body)), " "), 700), tail2(log.String(), 2500), t.What),
				M{"site": site, "trace": t})
			break
		}
		if len(x.Violations) >= 5 {
			return nil
		}
	}
	return nil
}

// stress lets many clients send requests while files change, and records that.
// At the end of each round nothing changes, and every URL is requested.
func (site *Site) stress(dir string, m *fits, seed int64, seconds float64, clients, editors int) ([]*Traced, string) {
	r := rand.New(rand.NewSource(seed))
	out := []*Traced{}
	run := newServerRun(site, dir)
	defer run.close()
	run.swift = true
	current := first(site)
	deadline := time.Now().Add(time.Duration(seconds * float64(time.Second)))
	for round := 0; time.Now().Before(deadline); round++ {
		rec := &recorder{trace: Traced{Init: append([]int{}, current...)}}
		var wg sync.WaitGroup
		var failed sync.Map
		n := 1 + r.Intn(clients)
		for c := 0; c < n; c++ {
			wg.Add(1)
			seed := r.Int63()
			go func(c int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < 3+r.Intn(3); i++ {
					u := r.Intn(len(site.Urls))
					id := c*10 + i
					rec.add(TraceEvent{E: "start", R: id})
					w, bad := run.requestErr(site.Urls[u])
					if bad != "" {
						failed.Store(c, bad)
						return
					}
					rec.add(TraceEvent{E: "end", R: id, url: u, code: w.Code, body: w.Body.String()})
				}
			}(c)
		}
		// each editor has files of its own
		for e := 0; e < editors; e++ {
			ops := []Op{}
			for _, o := range site.Ops {
				if o.F%editors == e {
					ops = append(ops, o)
				}
			}
			if len(ops) == 0 {
				continue
			}
			wg.Add(1)
			seed := r.Int63()
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				mine := ops[r.Intn(len(ops))].F
				for i := r.Intn(30); i >= 0; i-- {
					o := ops[r.Intn(len(ops))]
					if r.Intn(3) > 0 && o.F != mine {
						continue
					}
					if err := rec.edit(run, Step{F: o.F, V: o.V, How: o.How}); err != nil {
						failed.Store(-1-o.F, "harness: "+err.Error())
					}
					if r.Intn(4) == 0 {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
				}
			}()
		}
		wg.Wait()
		bad := ""
		failed.Range(func(_, v any) bool { bad = v.(string); return false })
		for u, path := range site.Urls {
			if bad != "" {
				break
			}
			rec.add(TraceEvent{E: "start", R: 1000 + u})
			w, err := run.requestErr(path)
			bad = err
			rec.add(TraceEvent{E: "end", R: 1000 + u, url: u, code: w.Code, body: w.Body.String()})
		}
		if bad != "" {
			return out, bad
		}
		rec.trace.resolve(run, m)
		rec.trace.What = fmt.Sprintf("round %d of stress", round)
		for _, e := range rec.trace.Events {
			if e.E == "edited" {
				current[e.F-1] = e.V
			}
		}
		out = append(out, &rec.trace)
	}
	return out, ""
}

// ends checks that in the specification every request ends.
func (x *Ctx) ends(site *Site) error {
	dir, err := os.MkdirTemp("", "verif-ends")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "site.ndjson")
	data, _ := json.Marshal(site.full())
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return err
	}
	res, err := runTLC("Requests.tla", "RequestsEnd.cfg", []string{"SITE=" + file, "OUT=" + dir}, 8*time.Minute)
	x.tlc(res)
	if err != nil {
		return err
	}
	if res.Violated != "" {
		return fmt.Errorf("Requests.tla: %s", tail(res.Output, 3000))
	}
	return nil
}

// cacheDesign checks the cache step by step: keeping what is read with the time
// of the file that was opened is right, and with that of its path is not.
func (x *Ctx) cacheDesign(design string) error {
	res, err := runTLC("Cache.tla", "Cache_"+design+".cfg", nil, 5*time.Minute)
	if err != nil {
		return err
	}
	if right := design == "handle"; right != (res.Violated == "") {
		return fmt.Errorf("Cache.tla with times of the %s: %q", design, res.Violated)
	}
	if design == "path" {
		list, _ := x.Extra["mistaken_designs_rejected"].([]string)
		x.Extra["mistaken_designs_rejected"] = append(list, "keeping the time of the path instead of that of the file which was read: "+res.Violated)
	} else {
		x.tlc(res)
	}
	return nil
}

// stressJob is what the stress process has to do, and what comes of it.
type stressJob struct {
	Site    *Site               `json:"site"`
	Answers map[string][]Answer `json:"answers"`
	Seed    int64               `json:"seed"`
	Seconds float64             `json:"seconds"`
	Clients int                 `json:"clients"`
	Editors int                 `json:"editors"`

	Traces  []*Traced `json:"traces"`
	Ends    []M       `json:"ends"` // what was answered, by trace and event, if nothing explains it
	Problem string    `json:"problem"`
}

func (job *stressJob) run() any {
	// changes are faster in memory
	dir, err := os.MkdirTemp("/dev/shm", "verif-stress")
	if err != nil {
		dir, err = os.MkdirTemp("", "verif-stress")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	m := &fits{site: job.Site, answers: job.Answers, seen: map[string][][]int{}}
	job.Traces, job.Problem = job.Site.stress(filepath.Join(dir, "run"), m, job.Seed, job.Seconds, job.Clients, job.Editors)
	for i, t := range job.Traces {
		for j, e := range t.Events {
			if e.E == "end" {
				t.Events[j].URL = e.url
				body := strings.Join(strings.Fields(pageText(e.body)), " ")
				if len(e.May) == 0 {
					body = e.body
				}
				job.Ends = append(job.Ends, M{"trace": i, "event": j, "code": e.code, "body": body})
			}
		}
	}
	job.Answers = nil
	return job
}

// runJob is the process of a job.
func runJob(kind, file string) int {
	var job interface{ run() any }
	switch kind {
	case "stress":
		job = &stressJob{}
	case "lazy":
		job = &lazyJob{}
	}
	data, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(data, job)
	}
	if err == nil {
		data, _ = json.Marshal(job.run())
		err = os.WriteFile(file+".out", data, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

// process runs a job in a process of its own, with or without the race
// detector, and returns what the process ended with if it is a fault of the
// code which it runs.
func process(kind string, race bool, seconds float64, job, result any) (string, error) {
	dir, err := os.MkdirTemp("", "verif-job")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "job")
	data, _ := json.Marshal(job)
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return "", err
	}
	bin, _ := os.Executable()
	if race {
		bin = os.Getenv("VERIF_RACE")
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(seconds)*time.Second+2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "job", kind, file)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	buf := new(bytes.Buffer)
	cmd.Stderr = buf
	err = cmd.Run()
	log := buf.String()
	for _, sign := range []string{"WARNING: DATA RACE", "fatal error: ", "panic: "} {
		if i := strings.Index(log, sign); i >= 0 {
			return log[i:], nil
		}
	}
	if ctx.Err() != nil {
		return "the process does not end", nil
	}
	if err != nil {
		return "", fmt.Errorf("stress: %v\n%s", err, tail(log, 3000))
	}
	data, err = os.ReadFile(file + ".out")
	if err == nil {
		err = json.Unmarshal(data, result)
	}
	return "", err
}

// stressed puts a server under stress in a process of its own, with or without
// the race detector, and checks what it records.
func (x *Ctx) stressed(site *Site, race bool, seconds float64, clients, editors int) error {
	start := time.Now()
	answers, _, err := x.histories("", site, 8*time.Minute)
	if err != nil {
		return err
	}
	job := &stressJob{Site: site, Answers: answers, Seed: x.Seed + int64(clients), Seconds: seconds, Clients: clients, Editors: editors}
	what := map[bool]string{false: "plain", true: "race detector"}[race]
	done := &stressJob{}
	log, err := process("stress", race, seconds, job, done)
	if log != "" {
		x.Violation(fmt.Sprintf("%s (%s, %d clients, %d editors):\n%s", site.Name, what, clients, editors, atMost(log, 5000)), M{"site": site, "log": atMost(log, 20000)})
		return nil
	}
	if err != nil {
		return err
	}
	job = done
	if job.Problem != "" {
		x.Violation(fmt.Sprintf("%s (%s): %s", site.Name, what, job.Problem), M{"site": site})
		return nil
	}
	requests := 0
	for _, t := range job.Traces {
		for j := range t.Events {
			t.Events[j].url = t.Events[j].URL
			if t.Events[j].E == "end" {
				requests++
			}
		}
		x.Seen(fmt.Sprint(t.Events))
		x.Traces++
	}
	for _, e := range job.Ends {
		ev := &job.Traces[int(e["trace"].(float64))].Events[int(e["event"].(float64))]
		ev.code, ev.body = int(e["code"].(float64)), e["body"].(string)
	}
	if len(job.Traces) == 0 {
		return fmt.Errorf("%s: no traces", site.Name)
	}
	if err := x.validate(site, job.Traces); err != nil {
		return err
	}
	list, _ := x.Extra["stress"].([]any)
	x.Extra["stress"] = append(list, M{"site": site.Name, "with": what, "traces": len(job.Traces), "requests": requests, "clients": clients, "editors": editors, "wall_s": time.Since(start).Seconds()})
	return nil
}

func atMost(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// stressSites are those which are put under stress.
func stressSites() []*Site {
	both := []string{"now", "kept"}
	flip := siteFile("main.lit", "\\title{Main}{index}\n\none \\bold{x}\n", "\\title{Main}{index}\n\ntwo \\bold{y}\n", "\\title{Main}{index}\n\nthree \\nope\n")
	main := siteFile("main.lit", siteMain2, siteMain1, siteMain4, siteMain3)
	sub := siteFile("sub.lit", siteSub2, siteSub1, siteSub3, siteSub4)
	oth := siteFile("d/sub.lit", siteOth1, siteOth2)
	pages := siteFile("main.lit", "\\title{Main}{index}\n\n\\split-sections\n\n\\section{\\title{A}{a} alpha}\n\n\\section{\\title{B}{b} beta \\bold{x}}\n\n\\section{\\title{C}{c}\n\n\\list{gamma}{delta}\n}\n",
		"\\title{Main}{index}\n\n\\split-sections\n\n\\section{\\title{A}{a} aleph}\n\n\\section{\\title{B}{b} beth}\n\n\\section{\\title{C}{c} gimel}\n")
	return []*Site{
		{Name: "pages without templates", Bare: true, Files: []SiteFile{pages}, Tmpls: []string{""}, Urls: []string{"/", "/a.html", "/b.html", "/c.html"}, Ops: ops([]string{"kept"}, []int{1, 1, 2})},
		{Name: "one file", Files: []SiteFile{flip}, Tmpls: []string{""}, Urls: []string{"/"}, Ops: ops([]string{"kept"}, []int{1, 1, 2})},
		{Name: "one file, templates", Files: []SiteFile{flip}, Tmpls: []string{"", "b1", "b2"}, Urls: []string{"/"}, Ops: ops([]string{"kept"}, []int{1, 1}, []int{0, 2, 3})},
		{Name: "three files", Files: []SiteFile{main, sub, oth}, Tmpls: []string{"", "b1", "bad"}, Urls: []string{"/", "/sub.html", "/two.html", "/nope.html"},
			Ops: ops(both, []int{1, 1, 2, 3, 4}, []int{2, 1, 2, 3}, []int{3, 1, 2}, []int{0, 1, 2, 3})},
	}
}
