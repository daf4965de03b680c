package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
)

func init() { logrus.SetOutput(io.Discard) }

var base = []booklit.PluginFactory{baselit.NewPlugin}

// write writes a file below the working directory.
func write(name, text string) {
	os.MkdirAll(filepath.Dir(name), 0o755)
	if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// build loads index.lit and writes its pages to out; it returns them by name.
func build(engine render.Engine) (map[string]string, error) {
	pages := map[string]string{}
	section, err := (&load.Processor{}).LoadFile("index.lit", base)
	if err != nil {
		return pages, err
	}
	os.MkdirAll("out", 0o755)
	w := render.Writer{Engine: engine, Destination: "out"}
	err = w.WriteSection(section)
	if err == nil {
		err = w.WriteSearchIndex(section, "search_index.json")
	}
	files, _ := filepath.Glob("out/*")
	for _, f := range files {
		data, _ := os.ReadFile(f)
		pages[filepath.Base(f)] = string(data)
	}
	return pages, err
}

func html(text string) (map[string]string, error) {
	write("index.lit", text)
	return build(render.NewHTMLEngine())
}

// expect ends the demonstration if something is not as it has to be.
func expect(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("BROKEN: "+format+"\n", args...)
		os.Exit(1)
	}
}

func contains(s string, parts ...string) bool {
	for _, p := range parts {
		if !strings.Contains(s, p) {
			return false
		}
	}
	return true
}

var _ = contains
var _ = html
