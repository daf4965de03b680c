package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"
)

// Documents are written with marks where comments may be put: one next to or
// within a word, and one on a line of its own between paragraphs.  From such a
// document two are made, without comments and with.
const (
	wordMark = '\uE000'
	lineMark = '\uE001'
)

func (g *gen) mark(w string) string {
	if !g.pct(g.p.Marks) {
		return w
	}
	// a place which does not split an escape sequence
	at := []int{0}
	for i := 0; i < len(w); {
		if w[i] == '\\' {
			i += 2
		} else {
			_, n := utf8.DecodeRuneInString(w[i:])
			i += n
		}
		at = append(at, i)
	}
	if g.inWord {
		at = []int{0, len(w)}
	}
	i := at[g.r.Intn(len(at))]
	switch g.r.Intn(4) {
	case 0:
		i = 0
	case 1:
		i = len(w)
	}
	return w[:i] + string(wordMark) + w[i:]
}

func (g *gen) markLine() string {
	if g.p.Marks == 0 || !g.pct(30) {
		return ""
	}
	return string(lineMark)
}

// allowed drops the marks where a comment would be an argument of a call, or
// something else than a comment.
func allowed(s string) string {
	in := []rune(s)
	out := []rune{}
	before := func(n int) rune { // what is written n before the end
		for i := len(out) - 1; i >= 0; i-- {
			if out[i] != wordMark && out[i] != lineMark {
				if n--; n == 0 {
					return out[i]
				}
			}
		}
		return ' '
	}
	for i, r := range in {
		if r == wordMark {
			next := ' '
			for _, q := range in[i+1:] {
				if q != wordMark && q != lineMark {
					next = q
					break
				}
			}
			p, q := before(1), before(2)
			switch {
			case p == '}' || p == '\\' && q != '\\':
				continue
			case p == '{' && (q == '{' || next == '-'):
				continue
			case afterName(out):
				continue
			}
		}
		out = append(out, r)
	}
	return string(out)
}

// afterName tells whether a text ends with the name of a function.
func afterName(s []rune) bool {
	i := len(s)
	for i > 0 && (s[i-1] == '-' || s[i-1] >= 'a' && s[i-1] <= 'z' || s[i-1] == wordMark) {
		i--
	}
	n := 0
	for i > 0 && s[i-1] == '\\' {
		i--
		n++
	}
	return n%2 == 1
}

func withoutComments(s string) string {
	return strings.NewReplacer(string(wordMark), "", string(lineMark), "").Replace(s)
}

func withComments(r *rand.Rand, s string) string {
	comment := func() string {
		all := []string{"{- c -}", "{- \\fail{no} -}", "{- a {- n -} b -}", "{--}", "{- l1\n l2 -}", "{- } {{ \\ { -}",
			"{-\n\\title{Gone}\n\n\\section{ x }\n-}", "{-x-}{-y-}", "{- {--}{- {- -} -} -}", "{- \\target{gone} -}", "{- -- -}", "{- {-}-} -}", "{-}-}", "{-  é -}",
			"{- {{{ -}", "{- \\include-section{none.lit} -}"}
		return all[r.Intn(len(all))]
	}
	out := strings.Builder{}
	for _, c := range s {
		switch c {
		case wordMark:
			out.WriteString(comment())
		case lineMark:
			for n := 1 + r.Intn(2); n > 0; n-- {
				if r.Intn(3) == 0 {
					out.WriteString("  ")
				}
				out.WriteString(comment() + "\n")
				if r.Intn(3) == 0 {
					out.WriteString("\n")
				}
			}
		default:
			out.WriteRune(c)
		}
	}
	return out.String()
}

// commentPairs makes documents with comments, and pairs of documents which
// differ by their comments.
func commentPairs(r *rand.Rand, n int) []*Case {
	mixed := base("C03")
	mixed.Comment, mixed.Word = 10, 12
	mixed.Fn = fn("style", 8, "tpc", 8, "list", 4, "target", 3, "ref", 2, "tpn", 2)
	mixed.Mess, mixed.Depth, mixed.Plug = 15, 1, 80
	plain := *mixed
	plain.Comment, plain.Mess, plain.Marks = 0, 0, 30
	plain.Pre, plain.Paras, plain.Wrapped = 3, 4, 4
	plain.Depth, plain.Dup = 2, 15
	plain.Fn = fn("style", 8, "tpc", 8, "list", 4, "target", 3, "ref", 2, "toc", 5, "block", 3, "fail", 1, "lazy", 2)
	plain.Words = append(append([]string{}, plainWords...), "é", "日本", "x-y", "a\\b", "{", "}", "x}y")
	var cs []*Case
	for i := 1; i+2 <= n; i += 3 {
		cs = append(cs, NewCase(r, mixed, i))
		a := NewCase(r, &plain, i+1)
		b := *a
		b.ID = i + 2
		b.Files = nil
		for k, f := range a.Files {
			text := allowed(f.Text())
			a.Files[k].Src = chars(withoutComments(text))
			b.Files = append(b.Files, File{f.Path, chars(withComments(r, text))})
		}
		if a.Size() == b.Size() {
			continue
		}
		a.Pair, b.Pair = b.ID, a.ID
		cs = append(cs, a, &b)
	}
	// numbered as they are read
	id := map[int]int{}
	for i, c := range cs {
		id[c.ID] = i + 1
	}
	for i, c := range cs {
		c.ID = i + 1
		c.Pair = id[c.Pair]
	}
	return cs
}

// sameButComments says how the build of a document without comments differs
// from that of the same document with comments.
func sameButComments(without, with *Real) string {
	if without == nil || with == nil || without.Panicked != "" || with.Panicked != "" {
		return ""
	}
	kind := func(r *Real) string { return fmt.Sprint(r.Err["k"], " in ", r.Err["file"]) }
	if kind(without) != kind(with) {
		return fmt.Sprintf("without comments: error %s (%s); with comments: %s (%s)", kind(without), without.ErrText, kind(with), with.ErrText)
	}
	if a, b := strings.Join(without.Log, "\n"), strings.Join(with.Log, "\n"); a != b {
		return fmt.Sprintf("functions called without comments: %s, with comments: %s", a, b)
	}
	if without.Err["k"] != "none" {
		return ""
	}
	if len(without.Pages) != len(with.Pages) {
		return "different pages"
	}
	for i, p := range without.Pages {
		if q := with.Pages[i]; p.Name != q.Name || p.Out != q.Out {
			return fmt.Sprintf("page %s without comments: %q, with comments: %q", p.Name, p.Out, q.Out)
		}
	}
	if a, b := show2(without.Index), show2(with.Index); a != b {
		return fmt.Sprintf("search index without comments: %s, with comments: %s", a, b)
	}
	return ""
}
