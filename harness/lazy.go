package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/render"
)

// LazyDef is what an item of deferred content computes; see Lazy.tla.
type LazyDef struct {
	K  string `json:"k"`
	Of int    `json:"of"`
}

// LazyUse is something which a thread does.
type LazyUse struct {
	How string `json:"how"`
	L   int    `json:"l"`
}

// LazyScenario is what threads do with deferred content.
type LazyScenario struct {
	Defs  []LazyDef   `json:"defs"`
	Progs [][]LazyUse `json:"progs"`
	Hasty bool        `json:"hasty"`
	Twice bool        `json:"twice"`
	Retry bool        `json:"retry"`
}

// LazyResult is what came of it.
type LazyResult struct {
	Ok bool   `json:"ok"`
	C  string `json:"c"`
}

// LazySchedule is a behaviour of the specification.
type LazySchedule struct {
	Name  string
	N     int `json:"n"`
	Steps []struct {
		Op  string   `json:"op"`
		T   int      `json:"t"`
		Now []string `json:"now"`
	} `json:"steps"`
	Res   [][]LazyResult `json:"res"`
	Count []int          `json:"count"`

	Values []LazyResult `json:"values"`
	Shown  []LazyResult `json:"shown"`
}

// gated is content at which rendering calls a function.
type gated struct{ stop func() }

func (gated) IsFlow() bool                    { return true }
func (gated) String() string                  { return "" }
func (g gated) Visit(v booklit.Visitor) error { g.stop(); return v.VisitString("") }

// lazyItems makes the deferred content of a scenario; gate is called where a
// thread may stop.
func (s *LazyScenario) items(gate func(where string, l int), count []atomic.Int32) []*booklit.Lazy {
	out := make([]*booklit.Lazy, len(s.Defs)+1)
	for i, d := range s.Defs {
		l, d := i+1, d
		fn := func() (booklit.Content, error) {
			count[l].Add(1)
			gate("1", l)
			switch d.K {
			case "fail":
				return nil, fmt.Errorf("e%d", l)
			case "uses":
				c, err := out[d.Of].Force()
				gate("2", l)
				if err != nil {
					return nil, err
				}
				return booklit.Sequence{booklit.String(fmt.Sprintf("u%d(", l)), c, booklit.String(")")}, nil
			case "holds":
				return booklit.Sequence{booklit.String(fmt.Sprintf("h%d<", l)), gated{func() { gate("3", d.Of) }}, out[d.Of], booklit.String(">")}, nil
			}
			return booklit.String(fmt.Sprintf("t%d", l)), nil
		}
		if i%2 == 0 {
			out[l] = booklit.LazyFlow(fn)
		} else {
			out[l] = booklit.LazyBlock(fn)
		}
	}
	return out
}

// lazyDump describes computed content as the specification does.
func lazyDump(c booklit.Content, items []*booklit.Lazy) string {
	switch c := c.(type) {
	case nil:
		return "nothing"
	case booklit.String:
		return string(c)
	case booklit.Sequence:
		s := ""
		for _, x := range c {
			s += lazyDump(x, items)
		}
		if strings.HasPrefix(s, "h") {
			s = strings.NewReplacer("<", "[", ">", "]").Replace(s)
		}
		return s
	case gated:
		return ""
	case *booklit.Lazy:
		for i, l := range items {
			if l == c {
				return fmt.Sprint(i)
			}
		}
	}
	return fmt.Sprintf("%T", c)
}

func (u LazyUse) do(items []*booklit.Lazy) LazyResult {
	var err error
	out := new(bytes.Buffer)
	switch u.How {
	case "force":
		c, err := items[u.L].Force()
		if err != nil {
			return LazyResult{false, err.Error()}
		}
		return LazyResult{true, lazyDump(c, items)}
	case "html":
		err = render.NewHTMLEngine().RenderSection(out, lazySection(items[u.L]))
	case "text":
		err = render.NewTextEngine("txt").RenderSection(out, lazySection(items[u.L]))
	}
	if err != nil {
		s := err.Error()
		if i := strings.LastIndex(s, "e"); i >= 0 {
			s = s[i:]
		}
		return LazyResult{false, s}
	}
	s := out.String()
	if u.How == "html" {
		s = pageText(s)
	}
	return LazyResult{true, strings.Join(strings.Fields(s), "")}
}

// lazySection is a section which shows deferred content and nothing else.
func lazySection(l *booklit.Lazy) *booklit.Section {
	return &booklit.Section{Title: booklit.Empty, Body: booklit.Sequence{l}}
}

// follow makes threads follow a schedule.
func (s *LazyScenario) follow(h *LazySchedule) string {
	type thread struct {
		where string
		start chan LazyUse
		goOn  chan bool
		res   []LazyResult
	}
	var mu sync.Mutex
	who := map[int]*thread{}
	open := false
	count := make([]atomic.Int32, len(s.Defs)+1)
	changed := make(chan bool, 1000)
	at := func(t *thread, where string) {
		mu.Lock()
		t.where = where
		mu.Unlock()
		changed <- true
	}
	items := s.items(func(where string, l int) {
		mu.Lock()
		t := who[goid()]
		if t == nil || open {
			mu.Unlock()
			return
		}
		t.where = fmt.Sprintf("%s-%d", where, l)
		mu.Unlock()
		changed <- true
		<-t.goOn
	}, count)
	threads := []*thread{}
	for range s.Progs {
		t := &thread{where: "idle0", start: make(chan LazyUse, 1), goOn: make(chan bool, 1)}
		threads = append(threads, t)
		go func() {
			mu.Lock()
			who[goid()] = t
			mu.Unlock()
			for u := range t.start {
				r := func() (r LazyResult) {
					defer func() {
						if p := recover(); p != nil {
							r = LazyResult{false, fmt.Sprintf("panic: %v\n%s", p, debug.Stack())}
						}
					}()
					return u.do(items)
				}()
				mu.Lock()
				t.res = append(t.res, r)
				n := len(t.res)
				mu.Unlock()
				at(t, fmt.Sprint("idle", n))
			}
		}()
	}
	defer func() {
		mu.Lock()
		open = true
		for _, t := range threads {
			close(t.start)
			select {
			case t.goOn <- true:
			default:
			}
		}
		mu.Unlock()
	}()
	// agree says whether the threads are where they should be
	agree := func(now []string) (bool, string) {
		mu.Lock()
		defer mu.Unlock()
		ok := true
		for i, w := range now {
			got := threads[i].where
			if w == "wait" && got != "busy" {
				return false, fmt.Sprintf("thread %d did not wait for the result: %s", i+1, got)
			}
			if w != "wait" && w != got {
				ok = false
				if got != "busy" {
					return false, fmt.Sprintf("thread %d is at %s instead of %s", i+1, got, w)
				}
			}
		}
		return ok, ""
	}
	for n, st := range h.Steps {
		t := threads[st.T-1]
		mu.Lock()
		was := t.where
		// so are those which will be woken
		for i, w := range st.Now {
			if threads[i] == t || (threads[i].where != w && w != "wait") {
				threads[i].where = "busy"
			}
		}
		mu.Unlock()
		if st.Op == "call" {
			var k int
			fmt.Sscanf(was, "idle%d", &k)
			t.start <- s.Progs[st.T-1][k]
		} else {
			t.goOn <- true
		}
		deadline := time.After(10 * time.Second)
		for {
			ok, bad := agree(st.Now)
			if bad != "" {
				return fmt.Sprintf("step %d: %s, results %v", n+1, bad, t.res)
			}
			if ok {
				break
			}
			select {
			case <-changed:
			case <-deadline:
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				return fmt.Sprintf("step %d: the threads are not at %v\n%s", n+1, st.Now, atMost(string(buf), 5000))
			}
		}
		for _, w := range st.Now {
			if w == "wait" {
				// those which should wait might not
				time.Sleep(30 * time.Microsecond)
				if _, bad := agree(st.Now); bad != "" {
					return fmt.Sprintf("step %d: %s", n+1, bad)
				}
			}
		}
	}
	for i, t := range threads {
		for j, r := range t.res {
			if r != h.Res[i][j] {
				return fmt.Sprintf("thread %d got %v instead of %v from %v", i+1, r, h.Res[i][j], s.Progs[i][j])
			}
		}
	}
	for l, n := range h.Count {
		if got := int(count[l+1].Load()); got != n {
			return fmt.Sprintf("item %d was computed %d times instead of %d", l+1, got, n)
		}
	}
	return ""
}

// lazyScenarios are those of which all behaviours are explored.
func lazyScenarios(quick bool) []*LazyScenario {
	defs := [][]LazyDef{
		{{K: "text"}}, {{K: "fail"}},
		{{K: "uses", Of: 2}, {K: "text"}}, {{K: "uses", Of: 2}, {K: "fail"}},
		{{K: "holds", Of: 2}, {K: "text"}}, {{K: "holds", Of: 2}, {K: "fail"}},
		{{K: "holds", Of: 2}, {K: "uses", Of: 3}, {K: "text"}}, {{K: "uses", Of: 2}, {K: "holds", Of: 3}, {K: "fail"}},
	}
	hows := []string{"force", "html", "text"}
	out := []*LazyScenario{}
	for i, d := range defs {
		use := func(k, l int) LazyUse { return LazyUse{hows[k%3], l} }
		last := len(d)
		// two threads with two uses each, three with one
		for k := 0; k < 3; k++ {
			out = append(out, &LazyScenario{Defs: d, Progs: [][]LazyUse{{use(k, 1), use(k+1, last)}, {use(k+i, last), use(k+1+i, 1)}}})
			out = append(out, &LazyScenario{Defs: d, Progs: [][]LazyUse{{use(k, 1)}, {use(k+i+1, last)}, {use(k+2, 1)}}})
			if !quick {
				out = append(out, &LazyScenario{Defs: d, Progs: [][]LazyUse{{use(k, 1), use(k+i, last)}, {use(k+i+1, last), use(k, 1)}, {use(k+2, 1)}}})
			}
		}
		if len(d) < 3 && !quick {
			out = append(out, &LazyScenario{Defs: d, Progs: [][]LazyUse{{use(0, 1)}, {use(1, 1)}, {use(2, 1)}, {use(0, last)}}})
		}
	}
	return out
}

func lazyFile(dir string, list []*LazyScenario) (string, error) {
	buf := new(bytes.Buffer)
	for _, s := range list {
		data, _ := json.Marshal(s)
		buf.Write(append(data, '\n'))
	}
	file := filepath.Join(dir, "site.ndjson")
	return file, os.WriteFile(file, buf.Bytes(), 0o644)
}

// lazySchedules follows all behaviours of the specification.
func (x *Ctx) lazySchedules() error {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-lazy")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	list := lazyScenarios(x.quick())
	file, err := lazyFile(dir, list)
	if err != nil {
		return err
	}
	for _, cfg := range []string{"Lazy.cfg", "LazyEnd.cfg"} {
		res, err := runTLC("Lazy.tla", cfg, []string{"SITE=" + file, "OUT=" + out}, 8*time.Minute)
		x.tlc(res)
		if err != nil {
			return err
		}
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Fprintln(os.Stderr, cfg, res.Wall, res.Generated)
		}
		if res.Violated != "" {
			return fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, tail(res.Output, 3000))
		}
	}
	for _, m := range []struct {
		what string
		s    LazyScenario
	}{
		{"marking deferred content as computed beforehand", LazyScenario{Hasty: true, Defs: []LazyDef{{K: "text"}}}},
		{"not waiting for a computation", LazyScenario{Twice: true, Defs: []LazyDef{{K: "text"}}}},
		{"computing again after an error", LazyScenario{Retry: true, Defs: []LazyDef{{K: "fail"}}}},
	} {
		m.s.Progs = [][]LazyUse{{{"force", 1}}, {{"html", 1}}}
		if err := x.mistaken("Lazy", m.what, &m.s); err != nil {
			return err
		}
	}
	entries, err := os.ReadDir(out)
	if err != nil {
		return err
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(entries); i += 8 {
				h := &LazySchedule{Name: entries[i].Name()}
				data, err := os.ReadFile(filepath.Join(out, h.Name))
				if err == nil {
					err = json.Unmarshal(data, h)
				}
				bad := ""
				if err != nil {
					bad = "harness: " + err.Error()
				} else {
					bad = list[h.N-1].follow(h)
				}
				mu.Lock()
				x.Seen(h.Name)
				x.Traces++
				if bad != "" {
					x.Violation(bad+fmt.Sprintf("\n%+v\n%v", *list[h.N-1], h.Steps), M{"scenario": list[h.N-1], "schedule": h})
				} else if len(h.Steps) > 8 {
					x.Sample(M{"scenario": list[h.N-1], "schedule": h.Name})
				}
				stop := len(x.Violations) >= 5
				mu.Unlock()
				if stop {
					return
				}
			}
		}(k)
	}
	wg.Wait()
	x.space("schedules of uses of deferred content", len(entries), start)
	return nil
}

// lazyJob is what the stress process for deferred content has to do.
type lazyJob struct {
	Scenarios []*LazyScenario `json:"scenarios"`
	Answers   []*LazySchedule `json:"answers"`
	Seed      int64           `json:"seed"`
	Seconds   float64         `json:"seconds"`

	Rounds  int    `json:"rounds"`
	Uses    int    `json:"uses"`
	Problem string `json:"problem"`
}

// stress lets many threads use deferred content at once.
func (job *lazyJob) stress() string {
	r := rand.New(rand.NewSource(job.Seed))
	deadline := time.Now().Add(time.Duration(job.Seconds * float64(time.Second)))
	for ; time.Now().Before(deadline); job.Rounds++ {
		k := r.Intn(len(job.Scenarios))
		s, a := job.Scenarios[k], job.Answers[k]
		n := len(s.Defs)
		count := make([]atomic.Int32, n+1)
		items := s.items(func(string, int) {
			if job.Rounds%2 == 0 {
				runtime.Gosched()
			}
		}, count)
		threads := 2 + r.Intn(15)
		var wg sync.WaitGroup
		begin := make(chan bool)
		bad := make(chan string, threads)
		for t := 0; t < threads; t++ {
			uses := []LazyUse{}
			for i := 0; i < 3; i++ {
				how := "force"
				if r.Intn(12) == 0 {
					how = []string{"html", "text"}[r.Intn(2)]
				}
				uses = append(uses, LazyUse{how, 1 + r.Intn(n)})
			}
			job.Uses += len(uses)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for _, u := range uses {
					want := a.Shown[u.L-1]
					if u.How == "force" {
						want = a.Values[u.L-1]
					}
					if got := u.do(items); got != want {
						select {
						case bad <- fmt.Sprintf("%+v: got %v instead of %v from %v", s.Defs, got, want, u):
						default:
						}
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		for l := 1; l <= n; l++ {
			if c := count[l].Load(); c > 1 {
				return fmt.Sprintf("%+v: item %d was computed %d times", s.Defs, l, c)
			}
		}
		select {
		case b := <-bad:
			return b
		default:
		}
	}
	return ""
}

func (job *lazyJob) run() any {
	job.Problem = job.stress()
	job.Scenarios, job.Answers = nil, nil
	return job
}

// lazyStressed puts deferred content under stress, with and without the race
// detector.
func (x *Ctx) lazyStressed() error {
	r := rand.New(rand.NewSource(x.Seed))
	job := &lazyJob{Seed: x.Seed, Seconds: float64(x.n(4, 60))}
	for k := 0; k < 300; k++ {
		s := &LazyScenario{Progs: [][]LazyUse{}}
		n := 1 + r.Intn(6)
		for l := 1; l <= n; l++ {
			d := LazyDef{K: []string{"text", "fail", "text"}[r.Intn(3)]}
			if l < n && r.Intn(3) > 0 {
				d = LazyDef{K: []string{"uses", "holds"}[r.Intn(2)], Of: l + 1 + r.Intn(n-l)}
			}
			s.Defs = append(s.Defs, d)
		}
		job.Scenarios = append(job.Scenarios, s)
	}
	dir, err := os.MkdirTemp("", "verif-lazy")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	file, err := lazyFile(dir, job.Scenarios)
	if err != nil {
		return err
	}
	res, err := runTLC("Lazy.tla", "Lazy.cfg", []string{"SITE=" + file, "OUT=" + dir}, 3*time.Minute)
	x.tlc(res)
	if err != nil {
		return err
	}
	if res.Violated != "" {
		return fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, tail(res.Output, 3000))
	}
	for k := range job.Scenarios {
		a := &LazySchedule{}
		data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("trace-%d-.json", k+1)))
		if err == nil {
			err = json.Unmarshal(data, a)
		}
		if err != nil {
			return err
		}
		job.Answers = append(job.Answers, a)
	}
	for _, race := range []bool{false, true} {
		done := &lazyJob{}
		log, err := process("lazy", race, job.Seconds, job, done)
		what := map[bool]string{false: "plain", true: "race detector"}[race]
		if log != "" {
			x.Violation(fmt.Sprintf("deferred content under stress (%s):\n%s", what, atMost(log, 5000)), M{"log": atMost(log, 20000)})
			return nil
		}
		if err != nil {
			return err
		}
		if done.Problem != "" {
			x.Violation(fmt.Sprintf("deferred content under stress (%s): %s", what, done.Problem), M{"problem": done.Problem})
			return nil
		}
		list, _ := x.Extra["stress"].([]any)
		x.Extra["stress"] = append(list, M{"with": what, "rounds": done.Rounds, "uses": done.Uses})
	}
	return nil
}
