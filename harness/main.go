package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/booklitcmd"
	"github.com/vito/booklit/chroma"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "booklit" {
		// the command, with the plugins compiled in
		defaultState = &RunState{Mem: map[string]booklit.Content{}}
		os.Args = append([]string{"booklit"}, os.Args[2:]...)
		booklitcmd.Main()
		return
	}
	logrus.SetOutput(io.Discard)
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness COMMAND")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "try":
		// try PROFILE N SEED: compare and print differences
		n, _ := strconv.Atoi(os.Args[3])
		seed, _ := strconv.Atoi(os.Args[4])
		try(os.Args[2], n, int64(seed))
	case "syntax":
		chroma.NewPlugin(nil).(chroma.Plugin).Syntax(os.Args[2], booklit.String(os.Args[3]))
	case "child":
		from, _ := strconv.Atoi(os.Args[3])
		step, _ := strconv.Atoi(os.Args[4])
		runChild(os.Args[2], from, step)
	case "job":
		os.Exit(runJob(os.Args[2], os.Args[3]))
	case "check":
		os.Exit(guarded(os.Args[2]))
	case "inner":
		os.Exit(runCheck(os.Args[2]))
	case "list":
		fmt.Println(strings.Join(checkIDs(), "\n"))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func try(profile string, n int, seed int64) {
	p := base(profile)
	r := rand.New(rand.NewSource(seed))
	cases := []*Case{}
	for i := 1; i <= n; i++ {
		cases = append(cases, NewCase(r, p, i))
	}
	want, res, err := expect(cases)
	if res != nil {
		fmt.Println("TLC", res.Wall, res.Distinct, res.Violated)
		if res.Violated != "" {
			fmt.Println(tail(res.Output, 6000))
		}
	}
	if err != nil {
		fmt.Println(err)
		return
	}
	run, err := newRunner()
	if err != nil {
		fmt.Println(err)
		return
	}
	defer run.Close()
	kinds := map[string]int{}
	bad := 0
	for _, c := range cases {
		w := want[c.ID]
		if w == nil {
			continue
		}
		k, _ := w.Err["k"].(string)
		kinds[w.Stage+"/"+k]++
		real := run.Run(c)
		ds := compare(c, w, real)
		if len(ds) > 0 {
			bad++
			if bad <= 8 {
				fmt.Printf("==== case %d (%s %s %s broken=%v section=%s tag=%s single=%v)\n", c.ID, c.Engine, c.Ext, c.Tmpl, c.Broken, c.Section, c.Tag, c.Single)
				for _, f := range c.Files {
					fmt.Printf("---- %s\n%s\n", f.Path, f.Text())
				}
				for _, d := range ds {
					fmt.Printf("** %s: %s\n", d.Aspect, d.Text)
				}
			}
		}
	}
	fmt.Println(bad, "differ of", len(cases))
	data, _ := json.Marshal(kinds)
	fmt.Println(string(data))
}
