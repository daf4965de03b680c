package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/net/html"
)

// ---- content trees

// normC flattens sequences and merges adjacent text: how content is divided
// into sequences cannot be observed in what is rendered.
func normC(v any) any {
	switch x := v.(type) {
	case M:
		k, _ := x["k"].(string)
		out := M{}
		for key, val := range x {
			switch key {
			case "n", "rows", "parts":
				out[key] = normList(val)
			case "c", "title", "body":
				out[key] = normC(val)
			default:
				out[key] = val
			}
		}
		if k == "seq" {
			return normSeq(out["n"])
		}
		if c, ok := out["c"].(M); ok && out["style"] == "raw-html" && c["k"] == "str" {
			out["c"] = M{"k": "str", "s": codeText(c["s"].(string))}
		}
		return out
	case []any:
		return normList(x)
	}
	return v
}

func normList(v any) any {
	l, ok := v.([]any)
	if !ok {
		return normC(v)
	}
	out := []any{}
	for _, x := range l {
		out = append(out, normC(x))
	}
	return out
}

func normSeq(v any) any {
	l, _ := v.([]any)
	flat := []any{}
	add := func(x any) {
		m, ok := x.(M)
		if c, _ := m["c"].(M); c != nil && m["style"] == "raw-html" && c["s"] == "" {
			return // markup without text
		}
		if !ok || m["k"] != "str" {
			flat = append(flat, x)
			return
		}
		s, _ := m["s"].(string)
		if s == "" {
			return
		}
		if len(flat) > 0 {
			if p, ok := flat[len(flat)-1].(M); ok && p["k"] == "str" {
				flat[len(flat)-1] = M{"k": "str", "s": p["s"].(string) + s}
				return
			}
		}
		flat = append(flat, x)
	}
	for _, x := range l {
		if m, ok := x.(M); ok && m["k"] == "seq" {
			for _, y := range m["n"].([]any) {
				add(y)
			}
			continue
		}
		add(x)
	}
	switch len(flat) {
	case 0:
		return M{"k": "str", "s": ""}
	case 1:
		return flat[0]
	}
	return M{"k": "seq", "n": flat}
}

// normTree normalises the content in a section.
func normTree(v any) any {
	m, ok := v.(M)
	if !ok {
		return v
	}
	out := M{}
	for key, val := range m {
		switch key {
		case "title", "body":
			out[key] = normC(val)
		case "parts":
			out[key] = normList(val)
		case "tags":
			tags := []any{}
			for _, t := range asList(val) {
				tag := M{}
				if tm, ok := t.(M); ok {
					for k, v := range tm {
						if k == "title" || k == "c" {
							v = normC(v)
						}
						tag[k] = v
					}
				}
				tags = append(tags, tag)
			}
			out[key] = tags
		case "children":
			kids := []any{}
			for _, c := range asList(val) {
				kids = append(kids, normTree(c))
			}
			out[key] = kids
		default:
			out[key] = val
		}
	}
	return out
}

func asList(v any) []any {
	l, _ := v.([]any)
	return l
}

// generic turns a value into what decoding its JSON gives.
func generic(v any) any {
	data, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(err)
	}
	var out any
	json.Unmarshal(data, &out)
	return out
}

// firstDiff describes the first difference between two generic values.
func firstDiff(path string, want, got any) string {
	if list, ok := want.([]any); ok {
		g, ok := got.([]any)
		if !ok {
			return fmt.Sprintf("%s: want %s, got %s", path, show(want), show(got))
		}
		for i := range list {
			if i >= len(g) {
				return fmt.Sprintf("%s[%d]: want %s, got nothing", path, i, show(list[i]))
			}
			if d := firstDiff(fmt.Sprintf("%s[%d]", path, i), list[i], g[i]); d != "" {
				return d
			}
		}
		if len(g) > len(list) {
			return fmt.Sprintf("%s[%d]: want nothing, got %s", path, len(list), show(g[len(list)]))
		}
		return ""
	}
	if m, ok := want.(M); ok {
		g, ok := got.(M)
		if !ok {
			return fmt.Sprintf("%s: want %s, got %s", path, show(want), show(got))
		}
		if m["k"] != nil && show(m["k"]) != show(g["k"]) {
			return fmt.Sprintf("%s: want %s, got %s", path, show(want), show(got))
		}
		keys := map[string]bool{}
		for k := range m {
			keys[k] = true
		}
		for k := range g {
			keys[k] = true
		}
		sorted := []string{}
		for k := range keys {
			sorted = append(sorted, k)
		}
		sort.Strings(sorted)
		for _, k := range sorted {
			w, inW := m[k]
			v, inG := g[k]
			if !inW {
				return fmt.Sprintf("%s.%s: want nothing, got %s", path, k, show(v))
			}
			if !inG {
				return fmt.Sprintf("%s.%s: want %s, got nothing", path, k, show(w))
			}
			if d := firstDiff(path+"."+k, w, v); d != "" {
				return d
			}
		}
		return ""
	}
	if show(want) != show(got) {
		return fmt.Sprintf("%s: want %s, got %s", path, show(want), show(got))
	}
	return ""
}

func show(v any) string {
	data, _ := json.Marshal(v)
	if len(data) > 400 {
		return string(data[:400]) + "..."
	}
	return string(data)
}

// ---- pages

var blockTags, listTags = map[string]bool{}, map[string]bool{}

func init() {
	for _, t := range strings.Fields(`html head meta title body h1 h2 h3 h4 h5 h6 p div blockquote
		ul ol li table tbody tr td dl dt dd nav section header pre`) {
		blockTags[t] = true
	}
	for _, t := range strings.Fields("ul ol li dl dt dd table tr td nav") {
		listTags[t] = true
	}
}

// canonicalURL names what a URL leads to, regardless of how it is escaped.
func canonicalURL(s string) string {
	// characters which mean something in URLs stay as they are, and all others
	// are the same with and without an escape
	lenient, strict := []byte{}, []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lenient = append(lenient, s[i])
			if s[i] < ' ' {
				// such characters are written with escapes
				strict = append(strict, fmt.Sprintf("%%%02X", s[i])...)
			} else {
				strict = append(strict, s[i])
			}
			continue
		}
		if i+2 < len(s) {
			if n, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil {
				strict = append(strict, s[i:i+3]...)
				i += 2
				if strings.IndexByte(":/?#%&=+;@", byte(n)) < 0 {
					lenient = append(lenient, byte(n))
				} else {
					lenient = append(lenient, fmt.Sprintf("%%%02X", n)...)
				}
				continue
			}
		}
		// a percent sign which escapes nothing stands for itself
		lenient = append(lenient, "%25"...)
		strict = append(strict, "%25"...)
	}
	// within paths and fragments it does not matter at all
	if u, err := url.Parse(string(strict)); err == nil && u.Scheme == "" && u.Host == "" && u.User == nil && u.RawQuery == "" && !u.ForceQuery {
		return refURL(strings.TrimPrefix(u.Path, "./"), u.Fragment)
	}
	return string(lenient)
}

func refURL(page, frag string) string {
	return strings.Join([]string{"", "", "", page, "", frag}, "|")
}

// seqHTML turns the tokens of either side into comparable lines: white space
// next to blocks does not count, except within pre.
func seqHTML(toks []htmlTok) []string {
	pre := 0
	// merge adjacent text
	merged := []htmlTok{}
	for _, t := range toks {
		if t.kind == 't' && len(merged) > 0 && merged[len(merged)-1].kind == 't' {
			merged[len(merged)-1].text += t.text
			continue
		}
		merged = append(merged, t)
	}
	merged = plainCode(merged)
	out := []string{}
	for i, t := range merged {
		switch t.kind {
		case 'o':
			if t.name == "pre" {
				pre++
			}
			line := "<" + t.name
			attrs := append([]string{}, t.attrs...)
			sort.Strings(attrs)
			for _, a := range attrs {
				line += " " + a
			}
			out = append(out, line+">")
		case 'c':
			if t.name == "pre" && pre > 0 {
				pre--
			}
			out = append(out, "</"+t.name+">")
		case 'x':
			out = append(out, t.text)
		case 't':
			s := t.text
			blocks := blockTags
			if pre > 0 {
				// what white space templates have around lists would be shown
				blocks = listTags
			}
			if i == 0 || (merged[i-1].kind != 't' && blocks[merged[i-1].name]) {
				s = strings.TrimLeft(s, " \t\r\n")
			}
			if i == len(merged)-1 || (merged[i+1].kind != 't' && blocks[merged[i+1].name]) {
				s = strings.TrimRight(s, " \t\r\n")
			}
			if s != "" {
				out = append(out, fmt.Sprintf("%q", s))
			}
		}
	}
	return out
}

type htmlTok struct {
	kind  byte // o, c, t, x
	name  string
	attrs []string
	text  string
}

// wantHTML reads the tokens of the specification.
func wantHTML(v any) []string {
	toks := []htmlTok{}
	for _, t := range asList(v) {
		f := []string{}
		for _, x := range asList(t) {
			s, _ := x.(string)
			f = append(f, s)
		}
		switch f[0] {
		case "t":
			toks = append(toks, htmlTok{kind: 't', text: f[1]})
		case "raw":
			toks = append(toks, htmlToks(f[1])...)
		case "c":
			toks = append(toks, htmlTok{kind: 'c', name: f[1]})
		case "o":
			tok := htmlTok{kind: 'o', name: f[1]}
			i := 2
			for i+1 < len(f) {
				switch f[i] {
				case "ref":
					tok.attrs = append(tok.attrs, fmt.Sprintf("href=%q", refURL(f[i+1], f[i+2])))
					i += 3
				case "href", "src":
					tok.attrs = append(tok.attrs, fmt.Sprintf("%s=%q", f[i], canonicalURL(f[i+1])))
					i += 2
				default:
					tok.attrs = append(tok.attrs, fmt.Sprintf("%s=%q", f[i], f[i+1]))
					i += 2
				}
			}
			toks = append(toks, tok)
		}
	}
	return seqHTML(toks)
}

// gotHTML reads a page.
func gotHTML(page string) []string { return seqHTML(htmlToks(page)) }

func htmlToks(page string) []htmlTok {
	toks := []htmlTok{}
	z := html.NewTokenizer(strings.NewReader(page))
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		raw := string(z.Raw())
		tok := z.Token()
		switch tt {
		case html.TextToken:
			toks = append(toks, htmlTok{kind: 't', text: tok.Data})
		case html.EndTagToken:
			toks = append(toks, htmlTok{kind: 'c', name: tok.Data})
		case html.StartTagToken, html.SelfClosingTagToken:
			t := htmlTok{kind: 'o', name: tok.Data}
			for _, a := range tok.Attr {
				if a.Key == "href" || a.Key == "src" {
					t.attrs = append(t.attrs, fmt.Sprintf("%s=%q", a.Key, canonicalURL(a.Val)))
				} else {
					t.attrs = append(t.attrs, fmt.Sprintf("%s=%q", a.Key, a.Val))
				}
			}
			toks = append(toks, t)
		case html.DoctypeToken:
		default:
			toks = append(toks, htmlTok{kind: 'x', text: raw})
		}
	}
	return toks
}

func diffLines(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("token %d: want %s, got the end", i, want[i])
		}
		if want[i] != got[i] {
			lo := i - 3
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("token %d: want %s, got %s (after %s)", i, want[i], got[i], strings.Join(want[lo:i], " "))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("token %d: want the end, got %s", len(want), got[len(want)])
	}
	return ""
}

// show2 is the whole of a value.
func show2(v any) string {
	data, _ := json.Marshal(v)
	return string(data)
}
