package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// guarded runs a check in a process of its own: booklit may end the process
// (by a stack overflow, say), which is a violation like others.
func guarded(id string) int {
	start := time.Now()
	bin, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(bin, "inner", id)
	log := &lastBytes{}
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(os.Stderr, log)
	err = cmd.Run()
	if err == nil {
		return 0
	}
	var exit *exec.ExitError
	if !errors.As(err, &exit) {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if exit.ExitCode() == 1 {
		return 1
	}
	text := log.String()
	for _, sign := range []string{"\nfatal error: ", "\npanic: "} {
		i := strings.Index("\n"+text, sign)
		if i < 0 {
			continue
		}
		crash := text[i:]
		if !strings.Contains(crash, "github.com/vito/booklit") {
			continue
		}
		x := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), Start: start, Distinct: map[string]bool{}, Extra: M{}}
		if x.Tier != "thorough" {
			x.Tier = "quick"
		}
		x.Violation("the process ended: "+atMost(crash, 4000), M{"log": atMost(crash, 20000)})
		x.Evals = 1
		if x.finish(checks[id]) == 2 {
			return 2
		}
		return 1
	}
	return 2
}

// lastBytes keeps the start and the end of what is written.
type lastBytes struct{ head, tail bytes.Buffer }

func (l *lastBytes) Write(p []byte) (int, error) {
	if l.head.Len() < 1<<20 {
		l.head.Write(p)
	} else {
		l.tail.Write(p)
		if l.tail.Len() > 4<<20 {
			l.tail.Next(l.tail.Len() - 2<<20)
		}
	}
	return len(p), nil
}

func (l *lastBytes) String() string { return l.head.String() + l.tail.String() }
