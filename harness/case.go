package main

import (
	"strings"
)

// File is a source file of a case, as the specification reads it: one string
// for each character.
type File struct {
	Path string   `json:"path"`
	Src  []string `json:"src"`
}

func (f File) Text() string { return strings.Join(f.Src, "") }

func chars(s string) []string {
	out := make([]string, 0, len(s))
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

// Case is a document to be built, in one of the ways in which it can be.
type Case struct {
	ID      int      `json:"id"`
	Root    string   `json:"root"`
	Files   []File   `json:"files"`
	Engine  string   `json:"engine"`
	Ext     string   `json:"ext"`
	Tmpl    string   `json:"tmpl"`
	Broken  bool     `json:"broken"`
	Section string   `json:"section"`
	Tag     string   `json:"tag"`
	Single  bool     `json:"single"`
	Want    []string `json:"want"`
	Pair    int      `json:"-"` // another case to compare this one with
}

func (c *Case) Wants(what string) bool {
	for _, w := range c.Want {
		if w == what {
			return true
		}
	}
	return false
}

func (c *Case) Size() int {
	n := 0
	for _, f := range c.Files {
		n += len(f.Src)
	}
	return n
}

// Outcome is what the specification says about a case, or what the
// implementation did with it.  Trees, content and errors are kept as generic
// JSON values so that they can be normalised and compared as such.
type Outcome struct {
	ID       int      `json:"id"`
	Stage    string   `json:"stage"`
	Log      []string `json:"log"`
	Err      M        `json:"err"`
	Tree     any      `json:"tree"`
	Pages    []Page   `json:"pages"`
	Index    []any    `json:"index"`
	Stripped []any    `json:"stripped"`
}

type Page struct {
	Name string `json:"name"`
	Out  any    `json:"out"`
}

type M = map[string]any
