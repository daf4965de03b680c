package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sync"
	"time"
)

// The real code runs in child processes: what it does to itself, such as
// overflowing its stack, running forever or using up all memory, is an
// observation like others.

// CaseTimeout is how long a single case may take.
const CaseTimeout = 30 * time.Second

// runChild is the child process: it builds the cases in the file, those given by
// a start and a step, and writes what it observes.
func runChild(file string, from, step int) {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30)
	cases, err := readCases(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r, err := newRunner()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer r.Close()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for i := from; i < len(cases); i += step {
		// when the case does not end, the dump of the goroutines tells why
		t := time.AfterFunc(CaseTimeout, func() {
			fmt.Fprintln(os.Stderr, "the case does not end")
			debug.SetTraceback("all")
			panic("the case does not end")
		})
		real := r.Run(cases[i])
		t.Stop()
		enc.Encode(real)
		out.Flush()
	}
}

func readCases(file string) ([]*Case, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	cases := []*Case{}
	dec := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
	for dec.More() {
		c := &Case{}
		if err := dec.Decode(c); err != nil {
			return nil, err
		}
		cases = append(cases, c)
	}
	return cases, nil
}

func writeCases(file string, cases []*Case) error {
	buf := new(bytes.Buffer)
	enc := json.NewEncoder(buf)
	enc.SetEscapeHTML(false)
	for _, c := range cases {
		if err := enc.Encode(c); err != nil {
			return err
		}
	}
	return os.WriteFile(file, buf.Bytes(), 0o644)
}

// runReal builds all cases in child processes.
func runReal(cases []*Case) (map[int]*Real, error) {
	dir, err := os.MkdirTemp("", "verif-real")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "cases.ndjson")
	if err := writeCases(file, cases); err != nil {
		return nil, err
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	results := map[int]*Real{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var failed error
	const workers = 8
	for k := 0; k < workers && k < len(cases); k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			deaths := 0
			for at := k; at < len(cases); {
				cmd := exec.Command(self, "child", file, fmt.Sprint(at), fmt.Sprint(workers))
				cmd.Env = append(os.Environ(), "TMPDIR="+dir)
				var errs bytes.Buffer
				cmd.Stderr = &errs
				pipe, err := cmd.StdoutPipe()
				if err == nil {
					err = cmd.Start()
				}
				if err != nil {
					mu.Lock()
					failed = err
					mu.Unlock()
					return
				}
				dec := json.NewDecoder(bufio.NewReaderSize(pipe, 1<<20))
				for {
					real := &Real{}
					if err := dec.Decode(real); err != nil {
						break
					}
					mu.Lock()
					results[real.ID] = real
					mu.Unlock()
					at += workers
				}
				err = cmd.Wait()
				if at >= len(cases) {
					return
				}
				// it died while it built the case
				mu.Lock()
				msg := errs.String()
				if len(msg) > 3000 {
					msg = msg[:3000]
				}
				real := &Real{Panicked: fmt.Sprintf("the process died (%v):\n%s", err, msg)}
				real.ID = cases[at].ID
				results[real.ID] = real
				mu.Unlock()
				at += workers
				if deaths++; deaths >= 3 {
					return // enough is known
				}
			}
		}(k)
	}
	wg.Wait()
	return results, failed
}
