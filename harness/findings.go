package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// knownFindings are the defects listed as such for a property.
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	re := regexp.MustCompile(`^finding: property=(\S+) (\S+) (.*)$`)
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		if g := re.FindStringSubmatch(sc.Text()); g != nil && g[1] == id {
			m[g[2]] = g[3]
		}
	}
	return m
}

// finding reports a failure of the given input as known if it is listed, and as
// a violation otherwise.
func (x *Ctx) finding(name, what string, input any) {
	if text, ok := knownFindings(x.ID)[name]; ok {
		x.Known = append(x.Known, name+": "+text)
		return
	}
	x.Violation(what, input)
}

// duplicatePages runs the input of the finding that two sections with the same
// primary tag are written to the same page.
func (x *Ctx) duplicatePages() {
	c := &Case{ID: 1, Root: "index.lit", Engine: "html", Ext: "html", Want: []string{"pages"}}
	c.Files = []File{{"index.lit", chars("\\title{Root}\n\n\\split-sections\n\n" +
		"\\section{\n  \\title{One}{same}\n\n  first text\n}\n\n\\section{\n  \\title{Two}{same}\n\n  second text\n}\n")}}
	real, err := runReal([]*Case{c})
	if err != nil || real[1] == nil {
		return
	}
	g := real[1]
	first, second := 0, 0
	for _, p := range g.Pages {
		s := fmt.Sprint(p.Out)
		first += strings.Count(s, "first text")
		second += strings.Count(s, "second text")
	}
	x.Extra["duplicate_pages_input"] = M{"first": first, "second": second, "error": g.Err["k"]}
	switch {
	case g.Err["k"] != "none" || first == 1 && second == 1:
		// repaired, one way or another
	case first == 0 && second == 1:
		x.finding("duplicate-pages", "a page is overwritten by that of another section\n"+c.Describe(), c)
	default:
		x.Violation(fmt.Sprintf("the first section appears %d times, the second %d times\n%s", first, second, c.Describe()), c)
	}
}

// exponential runs the input of the finding that parsing takes exponential time.
func (x *Ctx) exponential() {
	deep := strings.Repeat("\\a{{{", 10)
	const limit = 1000000
	done := make(chan error, 1)
	go func() { done <- parseOnly("deep.lit", []byte(deep), limit) }()
	var err error
	select {
	case err = <-done:
	case <-time.After(30 * time.Second):
		x.Violation("parsing "+deep+" does not end", deep)
		return
	}
	if err != nil && strings.Contains(err.Error(), "max number of expres") {
		x.finding("exponential-parse", "parsing "+deep+" takes more than a million steps", deep)
	}
}
