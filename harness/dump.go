package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vito/booklit"
)

// dumper writes sections and content like Pipeline!DumpS and DumpC.
type dumper struct {
	dir   string
	depth int
}

func (d dumper) path(p string) string {
	if p == "" {
		return ""
	}
	if rel, err := filepath.Rel(d.dir, p); err == nil {
		return rel
	}
	return p
}

func (d dumper) many(cs []booklit.Content) []any {
	out := []any{}
	for _, c := range cs {
		out = append(out, d.content(c))
	}
	return out
}

func (d dumper) content(c booklit.Content) any {
	if d.depth > 200 {
		return M{"k": "too deep"}
	}
	d.depth++
	switch c := c.(type) {
	case nil:
		return M{"k": "nil"}
	case booklit.String:
		return M{"k": "str", "s": string(c)}
	case booklit.Sequence:
		return M{"k": "seq", "n": d.many(c)}
	case booklit.Paragraph:
		return M{"k": "para", "n": d.many(c)}
	case booklit.Preformatted:
		return M{"k": "pre", "n": d.many(c)}
	case booklit.Styled:
		if raw, ok := c.Content.(booklit.String); ok && c.Style == "raw-html" {
			// of the markup, the text
			return M{"k": "styled", "style": "raw-html", "block": c.Block,
				"c": M{"k": "str", "s": textOf(string(raw))}, "parts": d.partials(c.Partials)}
		}
		return M{"k": "styled", "style": string(c.Style), "block": c.Block,
			"c": d.content(c.Content), "parts": d.partials(c.Partials)}
	case booklit.Link:
		return M{"k": "link", "c": d.content(c.Content), "target": c.Target}
	case *booklit.Reference:
		from := "?"
		if c.Section != nil {
			from = c.Section.PrimaryTag.Name
		}
		return M{"k": "ref", "tag": c.TagName, "c": d.content(c.Content), "opt": c.Optional,
			"line": c.Location.Line, "col": c.Location.Col, "from": from}
	case *booklit.Target:
		return d.content(*c)
	case booklit.Target:
		return M{"k": "target", "tag": c.TagName, "title": d.content(c.Title), "c": d.content(c.Content),
			"line": c.Location.Line, "col": c.Location.Col}
	case booklit.List:
		return M{"k": "list", "n": d.many(c.Items), "ordered": c.Ordered}
	case booklit.Table:
		rows := []any{}
		for _, r := range c.Rows {
			rows = append(rows, d.many(r))
		}
		return M{"k": "table", "rows": rows}
	case booklit.Definitions:
		n := []any{}
		for _, def := range c {
			n = append(n, []any{d.content(def.Subject), d.content(def.Definition)})
		}
		return M{"k": "defs", "n": n}
	case booklit.Image:
		return M{"k": "image", "path": c.Path, "desc": c.Description}
	case booklit.TableOfContents:
		return M{"k": "toc", "of": c.Section.PrimaryTag.Name}
	case booklit.Aux:
		return M{"k": "aux", "c": d.content(c.Content)}
	case *booklit.Lazy:
		return M{"k": "lazy", "block": c.Block}
	}
	return M{"k": fmt.Sprintf("?%T", c)}
}

func (d dumper) partials(parts booklit.Partials) []any {
	names := []string{}
	for n := range parts {
		names = append(names, n)
	}
	sort.Strings(names)
	out := []any{}
	for _, n := range names {
		out = append(out, []any{n, d.content(parts[n])})
	}
	return out
}

// asked are the partials which a section says it has, of all those which there
// are in the document.
func asked(s *booklit.Section) booklit.Partials {
	out := booklit.Partials{}
	var ask func(*booklit.Section)
	ask = func(other *booklit.Section) {
		for n := range other.Partials {
			if p := s.Partial(n); p != nil {
				out[n] = p
			}
		}
		for _, c := range other.Children {
			ask(c)
		}
	}
	ask(s.Top())
	return out
}

func (d dumper) section(s *booklit.Section) any {
	name := func(s *booklit.Section) string {
		if s == nil {
			return "-"
		}
		return s.PrimaryTag.Name
	}
	tags := []any{}
	for _, t := range s.Tags {
		owner := M{}
		if t.Section != s {
			owner["wrong-section"] = name(t.Section)
		}
		tag := M{"name": t.Name, "anchor": t.Anchor, "title": d.content(t.Title), "c": d.content(t.Content),
			"line": t.Location.Line, "col": t.Location.Col}
		for k, v := range owner {
			tag[k] = v
		}
		tags = append(tags, tag)
	}
	children := []any{}
	for _, c := range s.Children {
		if c.Parent != s {
			children = append(children, M{"wrong-parent": name(c.Parent)})
		}
		children = append(children, d.section(c))
	}
	return M{
		"title": d.content(s.Title), "body": d.content(s.Body), "ptag": s.PrimaryTag.Name,
		"tags": tags, "path": d.path(s.Path), "file": d.path(s.FilePath()), "style": s.Style,
		"parts": d.partials(asked(s)), "split": s.SplitSections, "prevent": s.PreventSplitSections,
		"omit": s.OmitChildrenFromTableOfContents, "number": s.Number(), "depth": s.Depth(),
		"level": s.PageDepth(), "line": s.Location.Line, "col": s.Location.Col,
		"next": name(s.Next()), "prev": name(s.Prev()), "anchors": s.HasAnchors(),
		"children": children,
	}
}

func stripDir(s, dir string) string {
	s = strings.ReplaceAll(s, dir+string(filepath.Separator), "")
	return strings.ReplaceAll(s, dir, ".")
}
