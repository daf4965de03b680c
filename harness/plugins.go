package main

import (
	"errors"
	"fmt"
	"html"
	"io"
	"strings"
	"sync"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
)

// RunState is what the test plugins record during one run.
type RunState struct {
	mu  sync.Mutex
	Log []string
	Mem map[string]booklit.Content
	// number of times that deferred content was computed
	LazyRuns int
	Gate     func(name string)
}

var runStates sync.Map // booklit.SectionProcessor -> *RunState

func stateOf(section *booklit.Section) *RunState {
	for s := section; s != nil; s = s.Parent {
		if v, ok := runStates.Load(s.Processor); ok {
			return v.(*RunState)
		}
	}
	if defaultState != nil {
		return defaultState
	}
	return &RunState{Mem: map[string]booklit.Content{}}
}

func newTP(s *booklit.Section) booklit.Plugin { return &TP{section: s, st: stateOf(s)} }
func newTQ(s *booklit.Section) booklit.Plugin { return &TQ{st: stateOf(s)} }

// defaultState is that of the program when it is a command.
var defaultState *RunState

// Pretty is an error which describes itself.
type Pretty struct{ Msg string }

func (p Pretty) Error() string           { return p.Msg }
func (p Pretty) PrettyPrint(w io.Writer) { fmt.Fprintf(w, "pretty: %s\n", p.Msg) }
func (p Pretty) PrettyHTML(w io.Writer) error {
	_, err := fmt.Fprintf(w, "<p class=\"pretty\">%s</p>", html.EscapeString(p.Msg))
	return err
}

// TP is the main test plugin; see Functions_.tla.
type TP struct {
	section *booklit.Section
	st      *RunState
}

func (p *TP) log(s string) {
	p.st.mu.Lock()
	p.st.Log = append(p.st.Log, s)
	p.st.mu.Unlock()
}

func (p *TP) Echo(c booklit.Content) booklit.Content { p.log("echo"); return c }
func (p *TP) Text(s string) booklit.Content          { p.log("text:" + s); return booklit.String(s) }
func (p *TP) Nothing()                               { p.log("nothing") }
func (p *TP) Note(s string)                          { p.log("note:" + s) }
func (p *TP) NilContent() booklit.Content            { p.log("nil-content"); return nil }
func (p *TP) NilBoth() (booklit.Content, error)      { p.log("nil-both"); return nil, nil }
func (p *TP) Fine(c booklit.Content) (booklit.Content, error) {
	p.log("fine")
	return c, nil
}
func (p *TP) NoError(s string) error { p.log("no-error:" + s); return nil }
func (p *TP) Fail(s string) error    { p.log("fail:" + s); return errors.New(s) }
func (p *TP) FailBoth(s string) (booklit.Content, error) {
	p.log("fail-both:" + s)
	return booklit.String("result of a failure"), errors.New(s)
}
func (p *TP) FailPretty(s string) error { p.log("fail-pretty:" + s); return Pretty{s} }
func (p *TP) FailPrettyBoth(s string) (booklit.Content, error) {
	p.log("fail-pretty-both:" + s)
	return nil, Pretty{s}
}
func (p *TP) Pair(a, b booklit.Content) booklit.Content {
	p.log("pair")
	return booklit.Sequence{a, b}
}
func (p *TP) Three(a booklit.Content, s string, b booklit.Content) booklit.Content {
	p.log("three")
	return booklit.Sequence{a, booklit.String(s), b}
}
func (p *TP) Join(sep string, cs ...booklit.Content) booklit.Content {
	p.log("join:" + sep)
	parts := []booklit.Content{}
	for _, c := range cs {
		parts = append(parts, c, booklit.String(sep))
	}
	return booklit.Append(nil, parts...)
}
func (p *TP) Strs(s string, more ...string) booklit.Content {
	p.log("strs:" + s)
	return booklit.String(strings.Join(append([]string{s}, more...), "|"))
}
func (p *TP) Gather(cs ...booklit.Content) booklit.Content {
	p.log("gather")
	return booklit.Sequence(cs)
}
func (p *TP) Raw(n ast.Node) booklit.Content {
	p.log("raw")
	return booklit.String(dumpNode(n))
}
func (p *TP) Raws(s string, ns ...ast.Node) booklit.Content {
	p.log("raws:" + s)
	for _, n := range ns {
		s += dumpNode(n)
	}
	return booklit.String(s)
}
func (p *TP) Block(c booklit.Content) booklit.Content {
	p.log("block")
	return booklit.Styled{Style: booklit.StyleAside, Block: true, Content: c}
}
func (p *TP) Para(c booklit.Content) booklit.Content {
	p.log("para")
	return booklit.Paragraph{c}
}
func (p *TP) Lines(cs ...booklit.Content) booklit.Content {
	p.log("lines")
	return booklit.Preformatted(cs)
}
func (p *TP) Dup(c booklit.Content) booklit.Content {
	p.log("dup")
	return booklit.Sequence{c, c}
}
func (p *TP) Remember(name string, c booklit.Content) {
	p.log("remember:" + name)
	p.st.Mem[name] = c
}
func (p *TP) Recall(name string) booklit.Content {
	p.log("recall:" + name)
	return p.st.Mem[name]
}
func (p *TP) Extend(name string, c booklit.Content) booklit.Content {
	p.log("extend:" + name)
	return booklit.Append(p.st.Mem[name], c)
}
func (p *TP) Style(name string, c booklit.Content) booklit.Content {
	p.log("style:" + name)
	return booklit.Styled{Style: booklit.Style(name), Content: c}
}
func (p *TP) StyleWith(name string, c booklit.Content, part string, pc booklit.Content) booklit.Content {
	p.log("style-with:" + name)
	return booklit.Styled{Style: booklit.Style(name), Content: c, Partials: booklit.Partials{part: pc}}
}
func (p *TP) Optional(tag string, c booklit.Content) booklit.Content {
	p.log("optional:" + tag)
	return &booklit.Reference{
		Section: p.section, TagName: tag, Content: c, Optional: true,
		Location: p.section.InvokeLocation,
	}
}
func (p *TP) Lazy(c booklit.Content) booklit.Content {
	p.log("lazy")
	return booklit.LazyFlow(p.lazily(c, nil))
}
func (p *TP) LazyBlock(c booklit.Content) booklit.Content {
	p.log("lazy-block")
	return booklit.LazyBlock(p.lazily(c, nil))
}
func (p *TP) LazyFail(s string) booklit.Content {
	p.log("lazy-fail:" + s)
	return booklit.LazyFlow(p.lazily(nil, errors.New(s)))
}
func (p *TP) LazyNil() booklit.Content {
	p.log("lazy-nil")
	return booklit.LazyFlow(p.lazily(nil, nil))
}
func (p *TP) lazily(c booklit.Content, err error) func() (booklit.Content, error) {
	return func() (booklit.Content, error) {
		p.st.mu.Lock()
		p.st.LazyRuns++
		p.st.mu.Unlock()
		return c, err
	}
}
func (p *TP) BadArg(s string, n int) booklit.Content { p.log("bad-arg:" + s); return nil }
func (p *TP) BadVariadic(s string, n ...int) booklit.Content {
	p.log("bad-variadic:" + s)
	return nil
}
func (p *TP) BadResult(s string) int         { p.log("bad-result:" + s); return 1 }
func (p *TP) BadFirst(s string) (int, error) { p.log("bad-first:" + s); return 1, nil }
func (p *TP) BadSecond(s string) (booklit.Content, int) {
	p.log("bad-second:" + s)
	return booklit.String("x"), 1
}
func (p *TP) BadCount(s string) (booklit.Content, booklit.Content, error) {
	p.log("bad-count:" + s)
	return nil, nil, nil
}
func (p *TP) ABC() booklit.Content { p.log("a-b-c"); return booklit.String("abc") }

// LazyGate lets a schedule stop the rendering where its result is shown.
func (p *TP) LazyGate(name string) booklit.Content {
	p.log("lazy-gate:" + name)
	return booklit.LazyFlow(func() (booklit.Content, error) {
		if p.st.Gate != nil {
			p.st.Gate(name)
		}
		return booklit.String(name), nil
	})
}

// Gate lets a schedule stop an evaluation here.
func (p *TP) Gate(name string) {
	p.log("gate:" + name)
	if p.st.Gate != nil {
		p.st.Gate(name)
	}
}

// TQ shares some names with TP and baselit.
type TQ struct{ st *RunState }

func (q *TQ) log(s string) {
	q.st.mu.Lock()
	q.st.Log = append(q.st.Log, "q:"+s)
	q.st.mu.Unlock()
}
func (q *TQ) Echo(c booklit.Content) booklit.Content {
	q.log("echo")
	return booklit.Sequence{booklit.String("q("), c, booklit.String(")")}
}
func (q *TQ) Text(s string, more ...string) booklit.Content {
	q.log("text")
	return booklit.String("q[" + strings.Join(append([]string{s}, more...), ",") + "]")
}
func (q *TQ) OnlyQ(s string) booklit.Content { q.log("only-q"); return booklit.String("q:" + s) }
func (q *TQ) Bold(s string) booklit.Content  { q.log("bold"); return booklit.String("qbold") }

// dumpNode writes a syntax tree like Eval!Dump.
func dumpNode(n ast.Node) string {
	seq := func(k string, ns []ast.Node) string {
		s := k + "("
		for _, n := range ns {
			s += dumpNode(n)
		}
		return s + ")"
	}
	lines := func(ls []ast.Sequence) []ast.Node {
		ns := []ast.Node{}
		for _, l := range ls {
			ns = append(ns, l)
		}
		return ns
	}
	switch n := n.(type) {
	case ast.String:
		return "'" + string(n) + "'"
	case ast.Sequence:
		return seq("seq", n)
	case ast.Paragraph:
		return seq("para", lines(n))
	case ast.Preformatted:
		return seq("pre", lines(n))
	case ast.Invoke:
		s := fmt.Sprintf("\\%s@%d:%d", n.Function, n.Location.Line, n.Location.Col)
		for _, a := range n.Arguments {
			s += "{" + dumpNode(a) + "}"
		}
		return s
	}
	return fmt.Sprintf("?%T", n)
}
