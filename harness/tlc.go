package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

const tlaJars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

// verifDir is the directory of the specification and everything else.
var verifDir = "/verif"

// TLCResult is how a run of the model checker ended.
type TLCResult struct {
	Ok        bool
	Violated  string // name of what was violated
	Output    string
	Generated int
	Distinct  int
	Depth     int
	Wall      time.Duration
}

var (
	reStates = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)
	reDepth  = regexp.MustCompile(`The depth of the complete state graph search is (\d+)`)
	reViol   = regexp.MustCompile(`(?:Invariant|Action property|Temporal property|Postcondition) (\S+)(?: is| was)? violated`)
)

// runTLC checks a module of /verif/spec in a scratch directory.
func runTLC(module, cfg string, env []string, timeout time.Duration, extra ...string) (*TLCResult, error) {
	meta, err := os.MkdirTemp("", "verif-tlc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(meta)
	args := []string{"-Xss512m", "-Xmx6g", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta,
		"-cp", tlaJars, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
		"-config", cfg}
	if os.Getenv("VERIF_TIER") != "thorough" {
		// a short run is over before optimising pays off
		args = append([]string{"-XX:TieredStopAtLevel=1"}, args...)
	}
	args = append(args, extra...)
	if !strings.Contains(strings.Join(extra, " "), "-workers") {
		args = append(args, "-workers", "8")
	}
	args = append(args, module)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "java", args...)
	cmd.Dir = filepath.Join(verifDir, "spec")
	cmd.Env = append(os.Environ(), env...)
	buf := new(bytes.Buffer)
	cmd.Stdout, cmd.Stderr = buf, buf
	start := time.Now()
	err = cmd.Run()
	res := &TLCResult{Output: buf.String(), Wall: time.Since(start)}
	if m := reStates.FindAllStringSubmatch(res.Output, -1); m != nil {
		last := m[len(m)-1]
		res.Generated, _ = strconv.Atoi(last[1])
		res.Distinct, _ = strconv.Atoi(last[2])
	}
	if m := reDepth.FindStringSubmatch(res.Output); m != nil {
		res.Depth, _ = strconv.Atoi(m[1])
	}
	if m := reViol.FindStringSubmatch(res.Output); m != nil {
		res.Violated = m[1]
	}
	res.Ok = err == nil && strings.Contains(res.Output, "No error has been found")
	if !res.Ok && res.Violated == "" {
		msg := res.Output
		if i := strings.Index(msg, "Error:"); i >= 0 {
			msg = msg[i:]
		}
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		return res, fmt.Errorf("TLC failed: %v\n%s", err, msg)
	}
	return res, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// expect lets the specification decide what each case leads to.
func expect(cases []*Case) (map[int]*Outcome, *TLCResult, error) {
	dir, err := os.MkdirTemp("", "verif-cases")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "cases.ndjson")
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0o755)
	if err := writeCases(file, cases); err != nil {
		return nil, nil, err
	}
	if keep := os.Getenv("VERIF_KEEP"); keep != "" {
		writeCases(keep+".cases", cases)
	}
	res, err := runTLC("Pipeline.tla", "Pipeline.cfg", []string{"CASES=" + file, "OUT=" + out}, 150*time.Second)
	if err != nil {
		return nil, res, err
	}
	outcomes := map[int]*Outcome{}
	for i, c := range cases {
		data, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("%d.json", i+1)))
		if err != nil {
			if res.Violated != "" {
				continue
			}
			return nil, res, err
		}
		o, err := decodeOutcome(data)
		if err != nil {
			return nil, res, fmt.Errorf("outcome of case %d: %v\n%s", c.ID, err, data)
		}
		outcomes[c.ID] = o
	}
	return outcomes, res, nil
}
