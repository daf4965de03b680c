package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/vito/booklit"
)

// Runs of the command; see Cli.tla.

// CliRun is what the command is told to do.
type CliRun struct {
	Kind      string   `json:"kind"`
	In        string   `json:"in"`
	Out       string   `json:"out"`
	Tag       string   `json:"tag"`
	Section   string   `json:"section"`
	Index     bool     `json:"index"`
	Ext       string   `json:"ext"`
	Tmpl      string   `json:"tmpl"`
	Broken    bool     `json:"broken"`
	CPU       string   `json:"cpu"`
	Builtin   []string `json:"builtin"`
	Plugins   []string `json:"plugins"`
	Interrupt bool     `json:"interrupt"`
	Urls      []string `json:"urls"`
	// what must make no difference
	Plain Plain `json:"plain"`
}

// Plain are ways to say the same.
type Plain struct {
	Debug, Slow, Short, Absolute, Equals, Term bool
}

// CliFile is a file in an output directory.
type CliFile struct {
	Dir    string `json:"dir"`
	Name   string `json:"name"`
	K      string `json:"k"`
	Text   string `json:"text"`
	Engine string `json:"engine"`
	Out    any    `json:"out"`
}

// CliCase are runs after each other.
type CliCase struct {
	ID    int       `json:"id"`
	Files []File    `json:"files"`
	Disk  []CliFile `json:"disk"`
	Hasty bool      `json:"hasty"`
	Runs  []*CliRun `json:"runs"`
}

// CliOutcome is what becomes of a run.
type CliOutcome struct {
	Exit    int      `json:"exit"`
	Stdout  CliFile  `json:"stdout"`
	Err     M        `json:"err"`
	Talk    bool     `json:"talk"`
	Profile bool     `json:"profile"`
	Answers []Answer `json:"answers"`
	Disk    []CliFile
}

func (c *CliCase) describe(upto int) string {
	s := ""
	for i, r := range c.Runs {
		if i <= upto {
			data, _ := json.Marshal(r)
			s += fmt.Sprintf("run %d: %s\n", i+1, data)
		}
	}
	for _, f := range c.Files {
		s += fmt.Sprintf("---- %s\n%s\n", f.Path, f.Text())
	}
	return s
}

func (c *CliCase) key() string {
	data, _ := json.Marshal(c)
	return string(data)
}

//go:embed plugins.go
var pluginSource string

//go:embed go.mod
var goMod string

//go:embed go.sum
var goSum string

// cliEnv has what the runs share: templates, and a module with plugins.
type cliEnv struct {
	dir  string
	real string // the command without any plugins
	self string // the command with the test plugins
}

func newCliEnv() (*cliEnv, error) {
	dir, err := os.MkdirTemp("", "verif-cli")
	if err != nil {
		return nil, err
	}
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	e := &cliEnv{dir: dir, real: os.Getenv("VERIF_BOOKLIT")}
	if e.real == "" {
		return nil, errors.New("VERIF_BOOKLIT is not set")
	}
	if e.self, err = os.Executable(); err != nil {
		return nil, err
	}
	files := map[string]string{
		"go.mod": strings.Replace(goMod, "module verif/harness", "module verifplug", 1),
		"go.sum": goSum,
		// the package for both, as another may be a dependency
		"tp/tp.go":         strings.Replace(pluginSource, "package main", "package tp", 1) + "\nfunc init() { booklit.RegisterPlugin(\"tp\", newTP); _ = newTQ; defaultState = &RunState{Mem: map[string]booklit.Content{}} }\n",
		"tq/tq.go":         strings.Replace(pluginSource, "package main", "package tq", 1) + "\nfunc init() { booklit.RegisterPlugin(\"tq\", newTQ); _ = newTP; defaultState = &RunState{Mem: map[string]booklit.Content{}} }\n",
		"talk/talk.go":     "package talk\n\nimport (\n\t\"fmt\"\n\t\"os\"\n)\n\nfunc init() { fmt.Println(\"talking\"); fmt.Fprintln(os.Stderr, \"also talking\") }\n",
		"exit/exit.go":     "package exit\n\nimport \"os\"\n\nfunc init() { os.Exit(7) }\n",
		"crash/crash.go":   "package crash\n\nfunc init() { panic(\"it crashed\") }\n",
		"killed/killed.go": "package killed\n\nimport (\n\t\"os\"\n\t\"syscall\"\n)\n\nfunc init() { syscall.Kill(os.Getpid(), syscall.SIGKILL); select {} }\n",
		"bad/bad.go":       "package bad\n\nfunc init() { undefinedFunction() }\n",
		// stands for the build of the program, and does not end
		"slow/go":              "#!/bin/sh\necho > \"$VERIF_STARTED\"\nexec sleep 60\n",
		"tmpl/bad/bold.tmpl":   tmplStates["bad"],
		"tmpl/b1/bold.tmpl":    tmplStates["b1"],
		"tmpl/fails/bold.tmpl": tmplStates["fails"],
	}
	for name, text := range files {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o755); err != nil {
			return nil, err
		}
	}
	return e, writeTemplates(filepath.Join(dir, "tmpl"))
}

func (e *cliEnv) close() { os.RemoveAll(e.dir) }

// expectCli lets the specification decide what becomes of the runs.
func (x *Ctx) expectCli(cases []*CliCase) ([][]CliOutcome, *TLCResult, error) {
	dir, err := os.MkdirTemp("", "verif-cases")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(dir)
	buf := new(bytes.Buffer)
	enc := json.NewEncoder(buf)
	enc.SetEscapeHTML(false)
	for _, c := range cases {
		if c.Disk == nil {
			c.Disk = []CliFile{}
		}
		for _, r := range c.Runs {
			for _, l := range []*[]string{&r.Builtin, &r.Plugins, &r.Urls} {
				if *l == nil {
					*l = []string{}
				}
			}
		}
		// only what the specification knows
		disk := []M{}
		for _, d := range c.Disk {
			disk = append(disk, M{"dir": d.Dir, "name": d.Name, "text": d.Text})
		}
		if err := enc.Encode(M{"files": c.Files, "disk": disk, "hasty": c.Hasty, "runs": c.Runs}); err != nil {
			return nil, nil, err
		}
	}
	file, out := filepath.Join(dir, "cases.ndjson"), filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	if err := os.WriteFile(file, buf.Bytes(), 0o644); err != nil {
		return nil, nil, err
	}
	if keep := os.Getenv("VERIF_KEEP"); keep != "" {
		os.WriteFile(keep+".cli", buf.Bytes(), 0o644)
	}
	res, err := runTLC("Cli.tla", "Cli.cfg", []string{"CASES=" + file, "OUT=" + out}, 5*time.Minute)
	x.tlc(res)
	if err != nil || res.Violated != "" {
		return nil, res, err
	}
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintln(os.Stderr, "Cli", res.Wall, res.Generated)
	}
	outs := [][]CliOutcome{}
	for i := range cases {
		data, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("%d.json", i+1)))
		if err != nil {
			return nil, res, err
		}
		var o []CliOutcome
		if err := json.Unmarshal(data, &o); err != nil {
			return nil, res, fmt.Errorf("outcome of case %d: %v\n%s", i+1, err, atMost(string(data), 2000))
		}
		outs = append(outs, o)
	}
	return outs, res, nil
}

// cli compares what the command does with what the specification says.
func (x *Ctx) cli(e *cliEnv, cases []*CliCase) error {
	want, res, err := x.expectCli(cases)
	if err != nil {
		return err
	}
	if res.Violated != "" {
		return fmt.Errorf("the specification breaks its own invariant %s:\n%s", res.Violated, tail(res.Output, 3000))
	}
	start := time.Now()
	var wg sync.WaitGroup
	var mu sync.Mutex
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(cases); i += 8 {
				c := cases[i]
				d, at := e.follow(c, want[i], filepath.Join(e.dir, fmt.Sprintf("case-%d", i)))
				mu.Lock()
				for j := range c.Runs {
					x.Seen(fmt.Sprint(j, c.key()))
				}
				x.Traces++
				if d != "" {
					x.Violation(fmt.Sprintf("run %d: %s\n%s", at+1, d, c.describe(at)), c)
				} else if len(c.describe(9)) < 1000 {
					x.Sample(M{"runs": c.Runs})
				}
				stop := len(x.Violations) >= 5
				mu.Unlock()
				if stop {
					return
				}
			}
		}(k)
	}
	wg.Wait()
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintln(os.Stderr, "runs", time.Since(start))
	}
	return nil
}

// follow does the runs and says what differs, in which run.
func (e *cliEnv) follow(c *CliCase, want []CliOutcome, dir string) (string, int) {
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	os.MkdirAll(src, 0o755)
	if err := writeFiles(src, &Case{Files: c.Files}); err != nil {
		return err.Error(), 0
	}
	os.WriteFile(filepath.Join(dir, "blocked"), []byte("a file"), 0o644)
	for _, f := range c.Disk {
		p := filepath.Join(dir, f.Dir, f.Name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(f.Text), 0o644)
	}
	for i, r := range c.Runs {
		if d := e.run(c, r, &want[i], dir); d != "" {
			return d, i
		}
		if d := sourcesChanged(src, c); d != "" {
			return d, i
		}
	}
	return "", 0
}

func sourcesChanged(src string, c *CliCase) string {
	n := 0
	filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			n++
		}
		return nil
	})
	if n != len(c.Files) {
		return fmt.Sprintf("%d files instead of %d are with the sources", n, len(c.Files))
	}
	for _, f := range c.Files {
		if data, _ := os.ReadFile(filepath.Join(src, f.Path)); string(data) != f.Text() {
			return "the source " + f.Path + " was changed"
		}
	}
	return ""
}

// args are the options of the run.
func (e *cliEnv) args(r *CliRun, dir string, port int) []string {
	args := []string{}
	opt := func(name, short, value string) {
		switch {
		case short != "" && r.Plain.Short:
			args = append(args, "-"+short, value)
		case r.Plain.Equals:
			args = append(args, "--"+name+"="+value)
		default:
			args = append(args, "--"+name, value)
		}
	}
	path := func(p string) string {
		if r.Plain.Absolute {
			return filepath.Join(dir, "src", p)
		}
		return p
	}
	switch r.Kind {
	case "help":
		args = append(args, "--help")
	case "version":
		if r.Plain.Short {
			args = append(args, "-v")
		} else {
			args = append(args, "--version")
		}
	case "flag":
		args = append(args, "--no-such-option")
	}
	if r.Kind != "noin" {
		opt("in", "i", path(r.In))
	}
	if r.Out != "" {
		opt("out", "o", filepath.Join(dir, r.Out))
	}
	if r.Tag != "" {
		opt("section-tag", "", r.Tag)
	}
	if r.Section != "" {
		opt("section-path", "", path(r.Section))
	}
	if r.Index {
		args = append(args, "--save-search-index")
	}
	if r.Ext != "" {
		opt("text-file-extension", "", r.Ext)
	}
	if r.Tmpl != "" {
		if r.Ext != "" {
			opt("text-templates", "", filepath.Join(e.dir, "tmpl", r.Tmpl))
		} else {
			opt("html-templates", "", filepath.Join(e.dir, "tmpl", r.Tmpl))
		}
	}
	if r.Broken {
		args = append(args, "--allow-broken-references")
	}
	switch r.CPU {
	case "ok":
		opt("cpu-profile", "", filepath.Join(dir, "cpu"))
	case "blocked":
		opt("cpu-profile", "", filepath.Join(dir, "blocked", "cpu"))
	}
	for _, p := range r.Plugins {
		opt("plugin", "p", "verifplug/"+p)
	}
	if r.Plain.Debug {
		args = append(args, "--debug")
	}
	if r.Plain.Slow {
		opt("slow-invoke-threshold", "", "1ns")
	}
	if r.Kind == "serve" {
		opt("serve", "s", fmt.Sprint(port))
	}
	return args
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// endBySignals lets the commands be ended by signals, also when what started
// the check ignores them: what a program handles, its children do not ignore.
var endBySignals = sync.OnceFunc(func() {
	for _, sig := range []os.Signal{os.Interrupt, syscall.SIGTERM} {
		ignored := signal.Ignored(sig)
		c := make(chan os.Signal, 1)
		signal.Notify(c, sig)
		go func() {
			for range c {
				if !ignored {
					os.Exit(2)
				}
			}
		}()
	}
})

// run runs the command once.
func (e *cliEnv) run(c *CliCase, r *CliRun, want *CliOutcome, dir string) string {
	src, tmp := filepath.Join(dir, "src"), filepath.Join(dir, "tmp")
	os.RemoveAll(tmp)
	os.MkdirAll(tmp, 0o755)
	os.Remove(filepath.Join(dir, "cpu"))
	port := 0
	if r.Kind == "serve" {
		port = freePort()
	}
	args := e.args(r, dir, port)
	bin := e.real
	if len(r.Builtin) > 0 {
		bin, args = e.self, append([]string{"booklit"}, args...)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = src
	started := filepath.Join(dir, "started")
	os.Remove(started)
	path := os.Getenv("PATH")
	if r.Interrupt {
		path = filepath.Join(e.dir, "slow") + ":" + path
	}
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "PATH="+path, "VERIF_STARTED="+started)
	endBySignals()
	// everything it starts can be ended
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var stdout, stderr bytes.Buffer
	so, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		return err.Error()
	}
	defer so.Close()
	se, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return err.Error()
	}
	defer se.Close()
	cmd.Stdout, cmd.Stderr = so, se
	if err := cmd.Start(); err != nil {
		return err.Error()
	}
	defer syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	problem, ended := "", false
	sig := os.Interrupt
	if r.Plain.Term {
		sig = syscall.SIGTERM
	}
	if r.Interrupt {
		deadline := time.Now().Add(30 * time.Second)
		for {
			if _, err := os.Stat(started); err == nil {
				break
			}
			if time.Now().After(deadline) || ended {
				return "the build of the program with the plugins does not start"
			}
			select {
			case <-done:
				ended = true
			case <-time.After(5 * time.Millisecond):
			}
		}
		cmd.Process.Signal(sig)
	} else if r.Kind == "serve" && want.Exit == -2 {
		problem = e.ask(r, want, dir, port, done)
		cmd.Process.Signal(sig)
	}
	if !ended {
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			return "the command does not end"
		}
	}
	data, _ := os.ReadFile(filepath.Join(dir, "stdout"))
	stdout.Write(data)
	data, _ = os.ReadFile(filepath.Join(dir, "stderr"))
	stderr.Write(data)
	said := func() string {
		return fmt.Sprintf("\nstdout: %s\nstderr: %s", atMost(stdout.String(), 1500), atMost(stderr.String(), 1500))
	}
	if problem != "" {
		return problem + said()
	}
	code := cmd.ProcessState.ExitCode()
	switch {
	case want.Exit == -2:
	case want.Exit == -1 && code == 0, want.Exit >= 0 && code != want.Exit:
		return fmt.Sprintf("exit status %d instead of %d (%v)%s", code, want.Exit, want.Err["message"], said())
	}
	if d := e.printed(r, want, stdout.String()); d != "" {
		return d + said()
	}
	if d := reported(r, want, stripDir(stderr.String(), src)); d != "" {
		return d + said()
	}
	if d := written(c, want, dir); d != "" {
		return d + said()
	}
	if left, err := os.ReadDir(tmp); err != nil || len(left) > 0 {
		return fmt.Sprintf("temporary files are left behind: %v %v%s", left, err, said())
	}
	info, err := os.Stat(filepath.Join(dir, "cpu"))
	if have := err == nil && info.Size() > 0; have != want.Profile {
		return fmt.Sprintf("CPU profile: %v instead of %v%s", have, want.Profile, said())
	}
	return ""
}

// ask sends requests to the server.
func (e *cliEnv) ask(r *CliRun, want *CliOutcome, dir string, port int, done chan error) string {
	base := fmt.Sprintf("127.0.0.1:%d", port)
	deadline := time.Now().Add(60 * time.Second)
	for {
		conn, err := net.DialTimeout("tcp", base, time.Second)
		if err == nil {
			conn.Close()
			break
		}
		select {
		case err := <-done:
			done <- err
			return "the server ended"
		case <-time.After(10 * time.Millisecond):
		}
		if time.Now().After(deadline) {
			return "the server does not listen"
		}
	}
	run := &serverRun{dir: dir}
	client := &http.Client{
		Timeout:       20 * time.Second,
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Transport:     &http.Transport{DisableKeepAlives: true},
	}
	for i, u := range r.Urls {
		res, err := client.Get("http://" + base + (&url.URL{Path: u}).EscapedPath())
		if err != nil {
			return fmt.Sprintf("GET %s: %v", u, err)
		}
		body, err := io.ReadAll(res.Body)
		res.Body.Close()
		if err != nil {
			return fmt.Sprintf("GET %s: %v", u, err)
		}
		a := want.Answers[i]
		rec := httptest.NewRecorder()
		rec.WriteHeader(res.StatusCode)
		rec.Body.Write(body)
		if a.Kind == "static" {
			file, _ := os.ReadFile(filepath.Join(dir, r.Out, a.URL))
			if res.StatusCode != 200 || string(file) != string(body) {
				return fmt.Sprintf("GET %s: instead of the file: status %d, %s", u, res.StatusCode, atMost(string(body), 500))
			}
			continue
		}
		if d := run.differs(a, rec, true); d != "" {
			return fmt.Sprintf("GET %s: %s", u, d)
		}
	}
	return ""
}

// printed compares the standard output.
func (e *cliEnv) printed(r *CliRun, want *CliOutcome, got string) string {
	if want.Talk {
		if !strings.HasPrefix(got, "talking\n") {
			return "what the plugin prints is missing"
		}
		got = strings.TrimPrefix(got, "talking\n")
	}
	switch want.Stdout.K {
	case "none":
		if got != "" {
			return "there must be no output"
		}
	case "version":
		if got != booklit.Version+"\n" {
			return "the output must be the version"
		}
	case "help":
		for _, o := range []string{"--in", "--out", "--section-tag", "--section-path", "--save-search-index", "--serve", "--plugin", "--debug",
			"--allow-broken-references", "--html-templates", "--text-file-extension", "--text-templates"} {
			if !strings.Contains(got, o) {
				return "the help must mention " + o
			}
		}
	case "page":
		return pageDiffers(want.Stdout, got)
	}
	return ""
}

func pageDiffers(f CliFile, got string) string {
	if f.Engine == "text" {
		if s, _ := f.Out.(string); s != got {
			return fmt.Sprintf("page %q: want %q, got %q", f.Name, s, got)
		}
		return ""
	}
	if d := diffLines(wantHTML(f.Out), gotHTML(got)); d != "" {
		return fmt.Sprintf("page %q: %s", f.Name, d)
	}
	return ""
}

// reported looks for the error in the error output.
func reported(r *CliRun, want *CliOutcome, stderr string) string {
	stderr = strings.ReplaceAll(stderr, "\x1b", "")
	if want.Talk && !strings.Contains(stderr, "also talking") {
		return "what the plugin prints to the error output is missing"
	}
	k, _ := want.Err["k"].(string)
	msg, _ := want.Err["message"].(string)
	if k == "none" {
		if strings.Contains(stderr, "panic: ") || r.Kind == "build" && strings.Contains(stderr, "level=error") {
			return "there must be no error"
		}
		return ""
	}
	if k == "plain" || k == "tmpl" {
		if !strings.Contains(stderr, msg) {
			return fmt.Sprintf("the error output must have %q", msg)
		}
		return ""
	}
	lines := splitLines(strs(want.Err["report"]))
	if r.Plain.Slow {
		// warnings about slow calls may be printed in between
		lines = lines[:1]
	}
	got := strings.Split(stderr, "\n")
	best, at := -1, ""
	for i := range got {
		n := 0
		for n < len(lines) && i+n < len(got) &&
			(got[i+n] == lines[n] || (k == "parse" && n == 0 && strings.HasPrefix(got[i], lines[0]))) {
			n++
		}
		if n == len(lines) {
			return ""
		}
		if n > best {
			best, at = n, lines[n]
		}
	}
	return fmt.Sprintf("the error output lacks %q", at)
}

// written compares the output directories.
func written(c *CliCase, want *CliOutcome, dir string) string {
	dirs := map[string]bool{}
	for _, r := range c.Runs {
		if r.Out != "" && r.Out != "blocked" {
			dirs[r.Out] = true
		}
	}
	for _, f := range c.Disk {
		dirs[f.Dir] = true
	}
	files := map[string]CliFile{}
	for _, f := range want.Disk {
		files[filepath.Join(f.Dir, f.Name)] = f
	}
	names := []string{}
	for d := range dirs {
		ents, _ := os.ReadDir(filepath.Join(dir, d))
		for _, ent := range ents {
			n := filepath.Join(d, ent.Name())
			if dirs[n] || ent.IsDir() && hasDirBelow(dirs, n) {
				continue
			}
			if _, ok := files[n]; !ok {
				return fmt.Sprintf("file %q must not be written", n)
			}
		}
	}
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := files[n]
		data, err := os.ReadFile(filepath.Join(dir, n))
		if f.K == "any" {
			continue
		}
		if err != nil {
			return fmt.Sprintf("there must be a file %q: %v", n, err)
		}
		switch f.K {
		case "old":
			if string(data) != f.Text {
				return fmt.Sprintf("file %q was changed", n)
			}
		case "page":
			if d := pageDiffers(f, string(data)); d != "" {
				return d
			}
		case "index":
			var m map[string]M
			if err := json.Unmarshal(data, &m); err != nil {
				return fmt.Sprintf("search index: %v", err)
			}
			real := &Real{}
			for n, e := range m {
				e["name"] = n
				real.Index = append(real.Index, e)
			}
			bad := ""
			diffIndex(func(aspect, format string, args ...any) { bad = "search index: " + fmt.Sprintf(format, args...) },
				nil, &Outcome{Index: asList(f.Out)}, real)
			if bad != "" {
				return bad
			}
		}
	}
	return ""
}

func hasDirBelow(dirs map[string]bool, n string) bool {
	for d := range dirs {
		if strings.HasPrefix(d, n+string(filepath.Separator)) {
			return true
		}
	}
	return false
}

// -----------------------------------------------------------------------------
// cases

func cliFiles(pairs ...string) []File {
	out := []File{}
	for i := 0; i < len(pairs); i += 2 {
		out = append(out, File{pairs[i], chars(pairs[i+1])})
	}
	return out
}

// what the sample documents have in common
var cliMore = []string{
	"extra.lit", "\\title{Extra}{extra}\n\nextra \\reference{two}\n\n\\section{\\title{Inner}{inner} in}\n",
	"bad.lit", "\\title{Bad}\n\nbad \\reference{nope}\n",
	"gone.lit", "\\include-section{missing.lit}\n",
}

func cliDocs() [][]File {
	doc := func(pairs ...string) []File { return cliFiles(append(pairs, cliMore...)...) }
	return [][]File{
		doc("main.lit", "\\title{Main & Co}{index}\n\n\\split-sections\n\none \\bold{b} \\target{here}{Here} \\reference{two}\n\n\\section{\\title{One}{one}{uno} x\n\n\\section{\\title{Sub}{sub} \\italic{y}}}\n\n\\include-section{d/two.lit}\n",
			"d/two.lit", "\\title{Two}{two}\n\ntext \\reference{sub} \\reference{here}\n"),
		doc("main.lit", "\\title{Main}{index}\n\n\\section{\\title{One}{one} \\nope{x}}\n\n\\section{\\title{Two}{two} y}\n"),
		doc("main.lit", "\\title{Main}{index}\n\n\\split-sections\n\nmain \\bold{x}\n\n\\section{\\title{One}{one} x}\n\n\\section{\\title{Two}{two} \\reference{gone}}\n\n\\section{\\title{Three}{three} z}\n"),
	}
}

func vary(r *rand.Rand) Plain {
	b := func() bool { return r.Intn(4) == 0 }
	return Plain{Debug: b(), Slow: b(), Short: r.Intn(2) == 0, Absolute: r.Intn(2) == 0, Equals: r.Intn(2) == 0, Term: r.Intn(2) == 0}
}

// cliProduct are all combinations of options over the sample documents.
func cliProduct(r *rand.Rand, perCase int) []*CliCase {
	engines := [][2]string{{"", ""}, {"", "nav"}, {"", "b1"}, {"", "gone"}, {"", "bad"}, {"", "fails"}, {"txt", ""}, {"md", "txt"}, {"txt", "gone"}, {"txt", "bad"}}
	out := []*CliCase{}
	for _, files := range cliDocs() {
		runs := []*CliRun{}
		for _, o := range []string{"", "out", "new/nested", "blocked"} {
			for _, sel := range [][2]string{{"", ""}, {"one", ""}, {"nope", ""}, {"one", "extra.lit"}, {"", "extra.lit"}, {"", "bad.lit"}, {"", "gone.lit"}, {"", "nope.lit"}} {
				for _, ix := range []bool{false, true} {
					if ix && o == "" && sel[0] != "" {
						continue
					}
					for _, e := range engines {
						for _, br := range []bool{false, true} {
							runs = append(runs, &CliRun{Kind: "build", In: "main.lit", Out: o, Tag: sel[0], Section: sel[1], Index: ix, Ext: e[0], Tmpl: e[1], Broken: br, Plain: vary(r)})
						}
					}
				}
			}
		}
		runs = append(runs, &CliRun{Kind: "help", In: "main.lit"}, &CliRun{Kind: "version", In: "main.lit"}, &CliRun{Kind: "version", In: "main.lit", Plain: Plain{Short: true}},
			&CliRun{Kind: "noin"}, &CliRun{Kind: "flag", In: "main.lit", Out: "out"}, &CliRun{Kind: "build", In: "nope.lit"}, &CliRun{Kind: "build", In: "nope.lit", Out: "out", Index: true},
			&CliRun{Kind: "build", In: "d/two.lit", Out: "out"},
			&CliRun{Kind: "build", In: "main.lit", CPU: "ok"}, &CliRun{Kind: "build", In: "main.lit", Out: "out", CPU: "ok"}, &CliRun{Kind: "build", In: "main.lit", Out: "out", CPU: "blocked"})
		r.Shuffle(len(runs), func(i, j int) { runs[i], runs[j] = runs[j], runs[i] })
		for len(runs) > 0 {
			n := perCase
			if n > len(runs) {
				n = len(runs)
			}
			out = append(out, &CliCase{Files: files, Runs: runs[:n], Disk: []CliFile{
				{Dir: "out", Name: "old.html", Text: "old"}, {Dir: "out", Name: "one.html", Text: "older"}, {Dir: "out", Name: "notes.txt", Text: "notes"}}})
			runs = runs[n:]
		}
	}
	return out
}

// cliRandom are runs over a generated document.
func cliRandom(r *rand.Rand, p *Profile, id int, runs int) *CliCase {
	c := NewCase(r, p, id)
	extra := cliFiles(cliMore...)
	cc := &CliCase{ID: id, Files: append(c.Files, extra...)}
	tags := append([]string{"nope", "main", "index"}, defaultTags...)
	for i := 0; i < runs; i++ {
		run := &CliRun{Kind: "build", In: "main.lit", Out: []string{"", "out", "out", "out", "other"}[r.Intn(5)], Plain: vary(r), Index: r.Intn(2) == 0, Broken: r.Intn(5) == 0}
		switch r.Intn(6) {
		case 0:
			run.Tag = tags[r.Intn(len(tags))]
		case 1:
			run.Section = []string{"extra.lit", "bad.lit", "nope.lit"}[r.Intn(3)]
		case 2:
			run.In = []string{"extra.lit", "bad.lit", c.Files[r.Intn(len(c.Files))].Path}[r.Intn(3)]
		}
		switch r.Intn(5) {
		case 0:
			run.Ext, run.Tmpl = []string{"txt", "md", "html"}[r.Intn(3)], []string{"", "txt"}[r.Intn(2)]
		case 1:
			run.Tmpl = []string{"nav", "style", "gone", "bad", "fails"}[r.Intn(5)]
		}
		if r.Intn(10) == 0 {
			run.CPU = "ok"
		}
		cc.Runs = append(cc.Runs, run)
	}
	return cc
}

// commanded compares runs of the command over documents of the profile with
// what the specification says.
func (x *Ctx) commanded(r *rand.Rand, p *Profile, options func(*rand.Rand, *CliRun)) error {
	e, err := newCliEnv()
	if err != nil {
		return err
	}
	defer e.close()
	cases := []*CliCase{}
	for i := 1; i <= x.n(120, 300); i++ {
		c := cliRandom(r, p, i, 2)
		if i%8 == 0 && x.ID != "C20" && x.ID != "C21" {
			c = cliServer(r, p, i, 1)
			c.Runs[0].Builtin, c.Runs[0].Broken, c.Runs[0].Tmpl = []string{"tp", "tq"}, r.Intn(2) == 0, ""
			cases = append(cases, c)
			continue
		}
		for _, run := range c.Runs {
			run.CPU = ""
			run.Builtin = []string{"tp", "tq"}
			options(r, run)
		}
		cases = append(cases, c)
	}
	if x.ID == "C30" {
		cases = append(cases, cliServes(r, 2)...)
	}
	n := x.Traces
	err = x.cli(e, cases)
	if k, ok := x.Extra["documents_built_by_the_command"].(int); ok {
		n -= k
	}
	x.Extra["documents_built_by_the_command"] = x.Traces - n
	return err
}

// cliServer is a run of the server over documents of the profile, and further
// runs.
func cliServer(r *rand.Rand, p *Profile, i, runs int) *CliCase {
	// what \\remember remembers outlives a request
	q := *p
	q.Fn = map[string]int{}
	for k, v := range p.Fn {
		q.Fn[k] = v
	}
	q.Fn["mem"] = 0
	c := cliRandom(r, &q, i, runs)
	c.Disk = []CliFile{{Dir: "out", Name: "t1.html", Text: "old"}, {Dir: "out", Name: "file.txt", Text: "text"}}
	urls := []string{"/", "/file.txt", "/nope.html", "/main.html"}
	for _, t := range defaultTags {
		urls = append(urls, "/"+t+".html")
	}
	c.Runs[0] = &CliRun{Kind: "serve", In: "main.lit", Out: "out", Urls: urls, Plain: vary(r), Broken: r.Intn(4) == 0, Tmpl: []string{"", "nav", "style", "gone", "bad"}[r.Intn(5)]}
	return c
}

// cliServes are servers, with pages of an earlier build as files.
func cliServes(r *rand.Rand, kinds int) []*CliCase {
	out := []*CliCase{}
	for i, files := range cliDocs() {
		for k := 0; k < kinds; k++ {
			urls := []string{"/", "/index.html", "/one.html", "/sub.html", "/two.html", "/here.html", "/nope.html", "/old.html", "/notes.txt", "/nope", "/extra.html"}
			s := &CliRun{Kind: "serve", In: "main.lit", Out: "out", Urls: urls, Plain: vary(r), Broken: k%2 == 1, Tmpl: []string{"", "bad", "b1", "gone", "fails"}[(i+k)%5]}
			if k == 3 {
				s.In = "nope.lit"
			}
			c := &CliCase{Files: files, Disk: []CliFile{{Dir: "out", Name: "old.html", Text: "old"}, {Dir: "out", Name: "notes.txt", Text: "notes"}},
				Runs: []*CliRun{{Kind: "build", In: "extra.lit", Out: "out", Broken: true}, s}}
			out = append(out, c)
		}
	}
	return out
}

func init() {
	register("C27", "runs of the command: all combinations of options over sample documents, and histories of runs over generated documents (Cli.tla), compared with the real command; distinct runs", func(x *Ctx) error {
		e, err := newCliEnv()
		if err != nil {
			return err
		}
		defer e.close()
		if err := x.mistakenCli(); err != nil {
			return err
		}
		r := rand.New(rand.NewSource(x.Seed*1000003 + int64(hash(x.ID))))
		start := time.Now()
		product := cliProduct(r, 12)
		if err := x.cli(e, product); err != nil || len(x.Violations) > 0 {
			return err
		}
		x.space("combinations of options over three documents", x.Evals, start)
		if err := x.cli(e, cliServes(r, x.n(2, 4))); err != nil || len(x.Violations) > 0 {
			return err
		}
		p := base("C27")
		p.FailAny, p.Mess, p.Split = 10, 5, 50
		for {
			cases := []*CliCase{}
			for i := 1; i <= x.n(400, 800); i++ {
				var c *CliCase
				if i%8 == 0 {
					c = cliServer(r, p, i, 3)
				} else {
					c = cliRandom(r, p, i, 3)
				}
				for _, run := range c.Runs {
					if i%4 > 0 {
						run.Builtin = []string{"tp", "tq"}
					}
				}
				cases = append(cases, c)
			}
			if err := x.cli(e, cases); err != nil {
				return err
			}
			if x.quick() || len(x.Violations) > 0 || time.Until(x.Deadline) < 60*time.Second {
				return nil
			}
		}
	})
}

// mistakenCli shows that leaving temporary files behind would be noticed.
func (x *Ctx) mistakenCli() error {
	c := &CliCase{Files: cliDocs()[1], Hasty: true, Runs: []*CliRun{{Kind: "build", In: "main.lit", Plugins: []string{"tp"}}}}
	_, res, err := x.expectCli([]*CliCase{c})
	if err != nil {
		return err
	}
	if res.Violated != "TempGone" {
		return fmt.Errorf("the mistaken design of leaving temporary files behind breaks no invariant (%s)", res.Violated)
	}
	x.Notes = append(x.Notes, "the mistaken design of leaving temporary files behind breaks TempGone")
	return nil
}

// cliPlugins are runs with plugins which are given as packages, each followed by
// the same with plugins that are compiled in.
func cliPlugins(r *rand.Rand, p *Profile, id int) *CliCase {
	c := cliRandom(r, p, id, 1)
	a := c.Runs[0]
	a.Plugins = [][]string{{"tp"}, {"tp", "tq"}, {"tq", "tp"}, {"tq", "talk", "tp"}, {"tp", "tp", "tq"}, {"tp", "tq"}}[r.Intn(6)]
	a.Plain.Debug = false
	b := *a
	b.Plugins = nil
	b.Out = map[string]string{"": "", "out": "out2", "other": "other2"}[a.Out]
	b.Builtin = []string{"tp", "tq"}
	c.Runs = append(c.Runs, &b)
	return c
}

// cliFaults are runs in which something goes wrong with plugins, and others of note.
func cliFaults(r *rand.Rand) []*CliCase {
	doc := func(pairs ...string) []File { return cliFiles(append(pairs, cliMore...)...) }
	good := doc("main.lit", "\\title{Main}{index}\n\n\\use-plugin{tp}\n\n\\split-sections\n\n\\echo{hi} \\text{there}\n\n\\section{\\title{One}{one} \\use-plugin{tq} \\only-q{x} \\remember{a}{b}}\n\n\\section{\\title{Two}{two} \\recall{a}}\n")
	fails := doc("main.lit", "\\title{Main}{index}\n\n\\use-plugin{tp}\n\nbefore \\fail{oops}\n")
	none := doc("main.lit", "\\title{Main}{index}\n\nplain \\bold{text} \\reference{sub}\n\n\\section{\\title{Sub}{sub} x}\n")
	late := doc("main.lit", "\\title{Main}{index}\n\n\\use-plugin{tp}\n\n\\split-sections\n\n\\section{\\title{One}{one} \\lazy-fail{too late}}\n\n\\section{\\title{Two}{two} y}\n")
	out := []*CliCase{}
	add := func(files []File, runs ...*CliRun) {
		for _, run := range runs {
			run.In, run.Plain = "main.lit", vary(r)
			if run.Kind == "" {
				run.Kind = "build"
			}
			out = append(out, &CliCase{Files: files, Runs: []*CliRun{run}, Disk: []CliFile{{Dir: "out", Name: "old.html", Text: "old"}}})
		}
	}
	urls := []string{"/", "/one.html", "/two.html", "/old.html", "/nope.html"}
	l := func(s ...string) []string { return s }
	for _, files := range [][]File{good, fails, none, late} {
		add(files,
			&CliRun{Out: "out", Plugins: l("tp", "tq"), Index: true},
			&CliRun{Plugins: l("tp", "tq")},
			&CliRun{Out: "out", Plugins: l("tq")},
			&CliRun{Out: "out"})
	}
	for _, ps := range [][]string{l("tp", "bad"), l("missing"), l("missing", "tp", "tq"), l("exit"), l("tp", "exit"), l("crash"), l("tp", "crash"), l("killed"), l("tp", "killed"), l("talk"), l("talk", "tp", "tq"), l("tp", "talk", "tq"), l("tp", "tp"), l("tq", "tp", "tq")} {
		add(good, &CliRun{Out: "out", Plugins: ps})
	}
	add(none,
		&CliRun{Plugins: l("talk")}, &CliRun{Plugins: l("bad")}, &CliRun{Plugins: l("missing")}, &CliRun{Plugins: l("exit")},
		&CliRun{Plugins: l("tp"), Out: "blocked"}, &CliRun{Plugins: l("tp"), Tag: "sub"}, &CliRun{Plugins: l("tp"), Tag: "nope"}, &CliRun{Plugins: l("tp"), Section: "extra.lit", Out: "out", Broken: true},
		&CliRun{Plugins: l("tp"), Tmpl: "bad"}, &CliRun{Plugins: l("tp"), Tmpl: "nav"}, &CliRun{Plugins: l("tp"), CPU: "ok"}, &CliRun{Plugins: l("tp"), CPU: "blocked"}, &CliRun{Plugins: l("tp"), Ext: "txt", Tmpl: "txt", Out: "new/dir"},
		&CliRun{Kind: "help", Plugins: l("tp")}, &CliRun{Kind: "version", Plugins: l("bad")}, &CliRun{Kind: "flag", Plugins: l("bad")}, &CliRun{Kind: "noin", Plugins: l("bad")})
	for i := 0; i < 4; i++ {
		ps := [][]string{l("tp"), l("tp", "tq"), l("bad"), l("exit")}[i]
		add(good, &CliRun{Out: "out", Plugins: ps, Interrupt: true})
		out[len(out)-1].Runs[0].Plain.Term = i%2 == 0
	}
	for i := 0; i < 2; i++ {
		for _, files := range [][]File{good, late} {
			add(files, &CliRun{Kind: "serve", Out: "out", Plugins: l("tp", "tq"), Urls: urls})
			out[len(out)-1].Runs[0].Plain.Term = i == 0
		}
	}
	add(good, &CliRun{Kind: "serve", Out: "out", Plugins: l("tp", "bad"), Urls: urls}, &CliRun{Kind: "serve", Out: "out", Plugins: l("exit"), Urls: urls})
	return out
}

func init() {
	register("C28", "runs of the real command with plugins given as packages, with options, failures and interruptions (Cli.tla), compared with the specification; distinct runs", func(x *Ctx) error {
		e, err := newCliEnv()
		if err != nil {
			return err
		}
		defer e.close()
		if err := x.mistakenCli(); err != nil {
			return err
		}
		r := rand.New(rand.NewSource(x.Seed*1000003 + int64(hash(x.ID))))
		p := base("C28")
		p.FailAny, p.Plug, p.Split = 15, 85, 50
		for {
			cases := []*CliCase{}
			if x.Evals == 0 {
				cases = cliFaults(r)
			}
			for i := 1; i <= x.n(40, 200); i++ {
				cases = append(cases, cliPlugins(r, p, i))
			}
			if err := x.cli(e, cases); err != nil {
				return err
			}
			if x.quick() || len(x.Violations) > 0 || time.Until(x.Deadline) < 120*time.Second {
				return nil
			}
		}
	})
}
