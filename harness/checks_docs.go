package main

import (
	"fmt"
	"math/rand"
	"strings"

	"golang.org/x/net/html"
)

var allWant = []string{"tree", "pages", "index", "stripped"}

func base(name string) *Profile {
	return &Profile{
		Name: name, Chars: 160,
		Word: 10, Escape: 1, Interp: 1, Comment: 1, Call: 6,
		Inline: 10, Wrapped: 2, Paras: 2, Pre: 1, Verb: 1, VerbBlock: 1, EmptyArg: 1,
		Title: 70, TagOf: 40, Dup: 5, Plug: 60, Split: 30, Files: 20, Depth: 2,
		Fn: map[string]int{"style": 10, "block": 3, "link": 3, "ref": 5, "target": 4, "list": 6, "image": 2,
			"aux": 3, "toc": 10, "tpc": 8, "tpn": 1, "mem": 4, "lazy": 2, "opt": 1},
		Engines: []string{"html", "html", "html/nav"},
		Want:    allWant,
	}
}

// fn sets the relative frequencies of groups of functions.
func fn(pairs ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(pairs); i += 2 {
		m[pairs[i].(string)] = pairs[i+1].(int)
	}
	return m
}

func rendered(w *Outcome) bool { return w.Stage != "failed" && w.Err["k"] == "none" }
func fails(w *Outcome) bool    { return w.Err["k"] != "none" }

func has(w *Outcome, what string) bool {
	return strings.Contains(show2(w.Tree)+show2(w.Pages), what)
}

func register(id, rule string, run func(*Ctx) error) {
	checks[id] = &Check{ID: id, Rule: rule, Run: run}
}

const ruleDocs = "random documents (several files, plugins, engines and template sets, seeded by VERIF_SEED) and their mutations, "

func init() {
	register("C01", ruleDocs+"made mainly of syntax; non-trivial: distinct documents", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage error tree log", Profile: func(p *Profile) {
			p.Escape, p.Interp, p.Call, p.Comment = 5, 4, 8, 3
			p.Inline, p.Wrapped, p.Paras, p.Pre, p.Verb, p.VerbBlock, p.EmptyArg = 6, 4, 5, 2, 2, 2, 2
			p.Fn = fn("style", 8, "tpc", 8, "tpn", 8, "list", 3, "names", 2)
			p.Plug, p.Mess, p.Depth, p.Files, p.CRLF = 85, 30, 1, 5, 10
			p.Want = []string{"tree"}
		}})
	})
	register("C02", ruleDocs+"made mainly of preformatted and verbatim text; non-trivial: has such text", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage error tree page log", Profile: func(p *Profile) {
			p.Inline, p.Wrapped, p.Paras, p.Pre, p.Verb, p.VerbBlock = 2, 1, 1, 8, 4, 8
			p.Escape, p.Comment = 3, 2
			p.Fn = fn("style", 4, "block", 8, "tpc", 6, "tpn", 2)
			p.Depth, p.Files, p.Mess, p.CRLF = 1, 5, 10, 15
			p.Want = []string{"tree", "pages"}
		}, NonTriv: func(w *Outcome) bool { return has(w, `"pre"`) }})
	})
	register("C03", ruleDocs+"with many comments; and documents without, each also built with comments put in; non-trivial: distinct documents and pairs", func(x *Ctx) error {
		pairs := map[int]*Real{}
		return x.docs(Docs{Aspects: "stage error tree page log index", Quick: 440, Prepared: func(r *rand.Rand, n int) []*Case {
			pairs = map[int]*Real{}
			return commentPairs(r, n)
		}, Extra: func(x *Ctx, c *Case, w *Outcome, g *Real) string {
			switch {
			case c.Pair == 0:
				return ""
			case c.Pair > c.ID:
				pairs[c.ID] = g
				return ""
			}
			return sameButComments(pairs[c.Pair], g)
		}})
	})
	register("C04", ruleDocs+"each saved with LF and with CRLF; non-trivial: distinct pairs", func(x *Ctx) error {
		pairs := map[int]*Real{}
		return x.docs(Docs{Aspects: "stage error where report log tree page pages index", Quick: 400,
			Prepared: func(r *rand.Rand, n int) []*Case {
				pairs = map[int]*Real{}
				p := base("C04")
				p.Inline, p.Wrapped, p.Paras, p.Pre, p.Verb, p.VerbBlock = 4, 4, 4, 4, 2, 4
				p.Comment, p.Mess, p.FailAny = 2, 20, 20
				p.Fn["fail"] = 1
				p.Fn["tpn"] = 4
				var cs []*Case
				for i := 1; i+1 <= n; i += 2 {
					a := NewCase(r, p, i)
					for k := range a.Files {
						a.Files[k].Src = chars(strings.ReplaceAll(a.Files[k].Text(), "\r", ""))
					}
					b := *a
					b.ID = i + 1
					b.Files = nil
					for _, f := range a.Files {
						b.Files = append(b.Files, File{f.Path, chars(strings.ReplaceAll(f.Text(), "\n", "\r\n"))})
					}
					cs = append(cs, a, &b)
				}
				return cs
			},
			Extra: func(x *Ctx, c *Case, w *Outcome, g *Real) string {
				if c.ID%2 == 1 {
					pairs[c.ID] = g
					return ""
				}
				return sameButLineEndings(pairs[c.ID-1], g)
			}})
	})
	register("C05", ruleDocs+"with calls of test plugins of every signature, in every order of plugins; non-trivial: calls test plugins", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage error tree log", Profile: func(p *Profile) {
			p.Call = 12
			p.Plug, p.FailAny = 95, 30
			p.Fn = fn("tpc", 14, "tpn", 6, "tq", 8, "names", 4, "style", 3, "list", 2, "fail", 1, "wrong", 1)
			p.Want = []string{"tree"}
			p.Depth = 2
		}, NonTriv: func(w *Outcome) bool { return len(w.Log) > 0 || fails(w) }})
	})
	register("C06", ruleDocs+"with functions that return, repeat, combine and remember content; non-trivial: has content made by such functions", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage tree page index stripped", Profile: func(p *Profile) {
			p.Plug = 95
			p.Fn = fn("tpc", 10, "mem", 14, "lazy", 3, "style", 5, "list", 3, "aux", 2, "ref", 2, "target", 2, "link", 1, "block", 2)
			p.Call = 9
		}, NonTriv: func(w *Outcome) bool { return len(w.Log) > 0 && rendered(w) }})
	})
	register("C07", ruleDocs+"with a call that fails, in all ways in which one can; non-trivial: the build has to fail", func(x *Ctx) error {
		return x.docs(Docs{Command: func(r *rand.Rand, run *CliRun) {
			run.Index = false
		}, Aspects: "stage error log", NonTriv: fails, Profile: func(p *Profile) {
			p.Plug, p.FailAny, p.Files = 80, 75, 40
			p.Fn["fail"], p.Fn["wrong"], p.Fn["lazybad"], p.Fn["styled"], p.Fn["with"], p.Fn["title2"] = 1, 1, 1, 3, 1, 1
			p.Engines = []string{"html", "html/style", "text", "text/txt", "html/nav"}
			p.Partial = 10
		}})
	})
	register("C08", ruleDocs+"with errors of all kinds anywhere; non-trivial: there is an error", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "error where report marks", NonTriv: fails, Profile: func(p *Profile) {
			p.Plug, p.FailAny, p.Files, p.Mess, p.CRLF, p.Dup = 75, 55, 40, 25, 15, 25
			p.Fn["fail"], p.Fn["wrong"], p.Fn["title2"], p.Fn["ref"], p.Fn["target"], p.Fn["tpn"] = 1, 1, 2, 8, 6, 3
			p.Words = append(append([]string{}, plainWords...), "é", "日本", "<b>", "&")
			p.Comment = 2
			p.Broken = 0
		}, Also: []func(p *Profile){func(p *Profile) {
			// tags defined twice, in several files
			p.FailAny, p.Mess, p.CRLF, p.Files, p.Dup, p.Depth, p.TagOf, p.Partial, p.Chars = 0, 0, 10, 70, 25, 3, 70, 0, 200
			p.Tags = []string{"t1", "t2", "t-3", "u5", "v"}
			p.Fn = fn("ref", 16, "target", 10, "style", 4)
		}}})
	})
	register("C09", ruleDocs+"of many sections, inline and in files; non-trivial: has sections below the root", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage error tree log", Profile: func(p *Profile) {
			p.Depth, p.Chars, p.Files, p.Call, p.Word = 3, 200, 45, 3, 6
			p.Plug = 70
			p.Fn = fn("styled", 10, "partial", 15, "omit", 10, "single", 10, "toc", 10, "tq", 6, "tpc", 4, "target", 2, "style", 3, "sect", 4, "title2", 1)
			p.Engines = []string{"html/style"}
			p.Want = []string{"tree", "pages"}
		}, NonTriv: func(w *Outcome) bool { return fails(w) || has(w, `"number":"1"`) }})
	})
	register("C10", ruleDocs+"with titles of all kinds of content and tags; non-trivial: has a title", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage error where tree pages", Profile: func(p *Profile) {
			p.Title, p.TagOf, p.Depth = 95, 30, 2
			p.Words = append(append([]string{}, plainWords...), specialWords...)
			p.Words = append(p.Words, " & ", "A & B", "x  y", "Über", "_", "-", "a.b", "(c)", "1.2")
			p.Fn = fn("style", 8, "aux", 8, "tpc", 5, "image", 2, "list", 2, "link", 2, "block", 2, "title2", 2, "ref", 2)
			p.Inline, p.Pre, p.Paras, p.Wrapped, p.EmptyArg = 8, 1, 2, 3, 2
			p.Want = []string{"tree", "pages"}
		}})
	})
	register("C11", ruleDocs+"with many references, tags and targets, some ambiguous; non-trivial: has references", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage error where page", Profile: func(p *Profile) {
			p.Dup, p.Depth, p.Files = 12, 3, 25
			p.Fn = fn("ref", 16, "target", 10, "style", 6, "list", 4, "aux", 3, "tpc", 4, "opt", 3, "partial", 4, "with", 1, "lazy", 1, "link", 2, "block", 2)
			p.TagOf = 60
			p.Broken = 15
			p.Partial = 15
			p.Want = []string{"tree", "pages"}
		}, NonTriv: func(w *Outcome) bool { return fails(w) || has(w, `"ref"`) }})
	})
	register("C12", ruleDocs+"with references, contents and navigation over split and unsplit sections; every link of the generated site is followed; non-trivial: has links", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage pages page index", Profile: func(p *Profile) {
			p.Dup, p.Depth, p.Files, p.Split, p.Title = 0, 3, 15, 45, 90
			p.Fn = fn("ref", 14, "target", 8, "style", 4, "toc", 25, "single", 12, "omit", 6, "aux", 2, "list", 2, "tpc", 3, "names", 0)
			p.Tags = []string{"t1", "t2", "Tag", "a b", "x/y", "é", "q?r", "h#i", "50%", "c:d", "a&b", "\"q\"", "it's", "u+v", "..", "<x>"}
			p.TagOf = 60
			p.Engines = []string{"html", "html/nav"}
			p.Want = []string{"pages", "index", "tree"}
		}, NonTriv: func(w *Outcome) bool { return rendered(w) && has(w, `"ref"`) },
			Extra: func(x *Ctx, c *Case, w *Outcome, g *Real) string { return followLinks(x, c, w, g) }})
	})
	register("C13", ruleDocs+"of many split, unsplit and single-page sections; non-trivial: has a split section", func(x *Ctx) error {
		x.duplicatePages()
		return x.docs(Docs{Command: func(r *rand.Rand, run *CliRun) {
			run.Out, run.In, run.Index = "out", "main.lit", false
			if run.Section == "bad.lit" {
				run.Section = ""
			}
		}, Aspects: "stage pages page", Profile: func(p *Profile) {
			p.Depth, p.Split, p.Files, p.Call, p.Word, p.Title, p.Chars = 4, 45, 20, 2, 4, 95, 240
			p.Fn = fn("single", 18, "toc", 4, "omit", 3, "style", 4, "styled", 4, "ref", 2)
			p.Partial = 15
			p.Engines = []string{"html", "html/nav", "html/style", "text"}
			p.Want = []string{"tree", "pages"}
		}, NonTriv: func(w *Outcome) bool { return len(w.Pages) > 1 || has(w, `"split":true`) }})
	})
	register("C14", ruleDocs+"of many sections with tables of contents; non-trivial: has a table of contents", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage tree page", Profile: func(p *Profile) {
			p.Depth, p.Split, p.Files, p.Call, p.Word, p.Title, p.Chars = 4, 25, 20, 3, 4, 90, 240
			p.Fn = fn("toc", 40, "omit", 20, "aux", 4, "style", 4, "single", 5)
			p.Engines = []string{"html", "html", "text"}
			p.Partial = 15
			p.Want = []string{"tree", "pages"}
		}, NonTriv: func(w *Outcome) bool { return has(w, `"toc"`) }})
	})
	register("C15", ruleDocs+"with auxiliary content within everything; non-trivial: has auxiliary content", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage tree page stripped", Profile: func(p *Profile) {
			p.Fn = fn("aux", 20, "style", 6, "list", 6, "link", 4, "ref", 5, "target", 3, "block", 3, "tpc", 4, "toc", 20, "mem", 3, "with", 2, "lazy", 1)
			p.Title = 95
			p.Engines = []string{"html", "html/nav", "html/style"}
		}, NonTriv: func(w *Outcome) bool { return has(w, `"aux"`) }})
	})
	register("C16", ruleDocs+"of many sections, with navigation; non-trivial: has several sections", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "tree page", Profile: func(p *Profile) {
			p.Depth, p.Split, p.Files, p.Call, p.Word, p.Title, p.Chars = 4, 60, 20, 1, 4, 95, 240
			p.Fn = fn("single", 6, "style", 4, "omit", 2)
			p.Partial = 25
			p.Engines = []string{"html/nav"}
			p.Want = []string{"tree", "pages"}
		}, NonTriv: func(w *Outcome) bool { return has(w, `"number":"1"`) }})
	})
	register("C17", ruleDocs+"of text that looks like markup, everywhere; non-trivial: distinct documents", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage pages page marks error", Extra: func(x *Ctx, c *Case, w *Outcome, g *Real) string { return errorShown(g) }, Profile: func(p *Profile) {
			p.Words = append(append([]string{}, specialWords...), "\"", "onload=\"x", "</title>", "</pre>", "</a>", "\x01", "a\u2028b", "\u00ad", "&lt;", "&#60;", "javascript:", "<!DOCTYPE", "='", "--", "</textarea>", "</script>")
			p.Tags = []string{"t1", "\"x\"", "<b>", "a&b", "it's", "é", "a b", "x>y", "&amp;", "%3C"}
			p.TagOf, p.FailAny = 60, 15
			p.Fn["link"], p.Fn["image"], p.Fn["target"], p.Fn["ref"], p.Fn["fail"] = 6, 6, 5, 6, 1
			p.Pre, p.Verb, p.VerbBlock = 3, 4, 3
			p.Want = []string{"pages", "tree"}
		}})
	})
	register("C18", ruleDocs+"of all constructs nested in each other; non-trivial: is rendered", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage page", NonTriv: rendered, Profile: func(p *Profile) {
			p.Call = 12
			p.Fn = fn("style", 10, "block", 8, "link", 6, "ref", 3, "target", 4, "list", 16, "image", 6, "aux", 2, "tpc", 4, "lazy", 2)
			p.Pre, p.Verb, p.VerbBlock, p.Paras, p.Wrapped = 3, 3, 3, 4, 3
			p.Depth = 1
			p.Want = []string{"pages"}
		}})
	})
	register("C19", ruleDocs+"with styles, partials and templates given by the user; non-trivial: has a style or a partial", func(x *Ctx) error {
		return x.docs(Docs{Command: func(r *rand.Rand, run *CliRun) {
			run.Ext, run.Tmpl = "", []string{"style", "style", "style", "nav", "gone"}[r.Intn(5)]
			if r.Intn(3) == 0 {
				run.Ext, run.Tmpl = "txt", []string{"txt", "txt", "gone"}[r.Intn(3)]
			}
		}, Aspects: "stage error page tree", Profile: func(p *Profile) {
			p.Fn = fn("styled", 45, "partial", 45, "with", 8, "style", 8, "tpc", 3, "list", 2, "block", 2, "link", 1, "image", 1)
			p.Split, p.Depth, p.Plug = 30, 3, 75
			p.Engines = []string{"html/style", "html/style", "text/txt", "html", "text"}
			p.Want = []string{"pages", "tree"}
		}, NonTriv: func(w *Outcome) bool {
			return fails(w) || has(w, `fancy`) || has(w, `plain`) || has(w, "shout") || has(w, "over")
		}})
	})
	register("C20", ruleDocs+"rendered as text; non-trivial: is rendered", func(x *Ctx) error {
		return x.docs(Docs{Command: func(r *rand.Rand, run *CliRun) {
			run.Ext, run.Tmpl = []string{"txt", "md", "html", "t"}[r.Intn(4)], []string{"", "txt"}[r.Intn(2)]
			if run.Ext == "html" && run.Tmpl == "" {
				run.Ext = "txt"
			}
		}, Aspects: "stage error page pages", NonTriv: rendered, Profile: func(p *Profile) {
			p.Engines = []string{"text", "text/txt", "text/txt"}
			p.Words = append(append([]string{}, plainWords...), specialWords...)
			p.Fn = fn("style", 4, "block", 8, "tpc", 5, "toc", 15, "ref", 3, "link", 2, "list", 3, "aux", 3, "lazy", 2, "target", 2, "image", 1, "styled", 4, "omit", 3, "single", 3)
			p.Pre, p.VerbBlock, p.Paras = 4, 3, 4
			p.Depth, p.Plug, p.Partial = 3, 50, 10
			p.Want = []string{"pages", "tree"}
		}})
	})
	register("C21", ruleDocs+"with tags and targets of all kinds of content; non-trivial: the index has several entries", func(x *Ctx) error {
		return x.docs(Docs{Command: func(r *rand.Rand, run *CliRun) {
			run.Out, run.Index = "out", true
		}, Aspects: "stage index", Profile: func(p *Profile) {
			p.Fn = fn("target", 16, "style", 8, "list", 5, "block", 3, "link", 3, "ref", 3, "aux", 3, "image", 2, "tpc", 4, "lazy", 1, "partial", 6, "single", 4)
			p.Tags = []string{"t1", "t2", "t-3", "a b", "x/y", "é", "h#i", "50%", "c:d", "a&b"}
			p.Pre, p.VerbBlock, p.Paras = 3, 2, 4
			p.Split, p.Depth, p.Partial, p.TagOf = 45, 3, 25, 60
			p.Words = append(append([]string{}, plainWords...), "<b>", "é")
			p.Want = []string{"index"}
		}, NonTriv: func(w *Outcome) bool { return len(w.Index) > 1 }})
	})
	register("C22", ruleDocs+"each built and rendered six times, with the same and with new processors; non-trivial: distinct documents", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "again", Quick: 320, Profile: func(p *Profile) {
			p.Want = []string{"pages", "index", "again"}
			p.FailAny, p.Dup, p.Files = 12, 12, 35
			p.Fn["partial"], p.Fn["with"], p.Fn["styled"], p.Fn["single"] = 25, 3, 6, 5
			p.Broken, p.Partial = 15, 15
			p.Engines = []string{"html", "html/nav", "html/style", "text/txt"}
		}})
	})
	register("C29", "schedules of threads which use deferred content (Lazy.tla), all up to a bound, followed by real threads; many threads at once; and generated documents of deferred content, failing or not, in all places; distinct schedules and documents", func(x *Ctx) error {
		if err := x.lazySchedules(); err != nil || len(x.Violations) > 0 {
			return err
		}
		if err := x.lazyStressed(); err != nil || len(x.Violations) > 0 {
			return err
		}
		return x.docs(Docs{Aspects: "stage error pages index", Profile: func(p *Profile) {
			p.Fn = fn("lazy", 24, "style", 5, "list", 5, "aux", 6, "ref", 4, "target", 3, "tpc", 6, "mem", 6, "block", 3, "link", 2, "toc", 12, "partial", 3, "with", 2, "lazybad", 1)
			p.FailAny, p.Title, p.Plug, p.Split, p.Depth = 5, 85, 100, 30, 3
			p.Engines = []string{"html", "html/nav", "html/style", "text/txt", "text"}
			p.Want = []string{"pages", "index", "again"}
		}, NonTriv: func(w *Outcome) bool { return strings.Contains(strings.Join(w.Log, " "), "lazy") },
			Extra: func(x *Ctx, c *Case, w *Outcome, g *Real) string {
				made := 0
				for _, l := range g.Log {
					if strings.HasPrefix(l, "lazy") {
						made++
					}
				}
				if g.LazyEarly > 0 {
					return fmt.Sprintf("%d computations before anything was shown", g.LazyEarly)
				}
				if g.LazyRuns > made {
					return fmt.Sprintf("%d computations of %d items of deferred content", g.LazyRuns, made)
				}
				return strings.Join(g.Crossed, "\n")
			}})
	})
	register("C30", ruleDocs+"with references that are good, unknown, ambiguous or optional, with broken references allowed or not; non-trivial: has references", func(x *Ctx) error {
		return x.docs(Docs{Command: func(r *rand.Rand, run *CliRun) {
			run.Broken = r.Intn(3) > 0
		}, Aspects: "stage error where page index tree", Profile: func(p *Profile) {
			p.Fn = fn("ref", 16, "opt", 8, "target", 5, "style", 5, "list", 2, "aux", 2, "toc", 8, "lazy", 1, "tpc", 2, "single", 4)
			p.Broken, p.Dup, p.Plug, p.Split, p.Depth, p.Partial = 60, 25, 70, 35, 3, 15
			p.TagOf = 50
			p.Engines = []string{"html", "html", "html/nav", "text/txt"}
			p.Want = []string{"pages", "tree", "index"}
		}, NonTriv: func(w *Outcome) bool { return fails(w) || has(w, `"ref"`) }})
	})
	register("C33", ruleDocs+"rendered by templates which show what they are told about the tree of sections; non-trivial: has several sections", func(x *Ctx) error {
		return x.docs(Docs{Aspects: "stage error page pages tree", Profile: func(p *Profile) {
			p.Fn = fn("target", 10, "style", 6, "styled", 0, "with", 4, "list", 3, "block", 3, "ref", 4, "aux", 3, "tpc", 2, "lazy", 1, "single", 6, "omit", 4, "toc", 4)
			p.Words = append(append([]string{}, plainWords...), "<b>", "&lt;", "é")
			p.Split, p.Depth, p.Plug, p.Partial, p.TagOf = 45, 4, 50, 15, 50
			p.Engines = []string{"html/side", "html/side", "text/tside"}
			p.Want = []string{"pages", "tree"}
		}, NonTriv: func(w *Outcome) bool { return fails(w) || strings.Contains(show2(w.Tree), `"number":"1"`) }})
	})
	register("C31", ruleDocs+"of all functions, mostly damaged; non-trivial: distinct documents", func(x *Ctx) error {
		x.exponential()
		return x.docs(Docs{Aspects: "stage", Profile: func(p *Profile) {
			p.Mess, p.FailAny, p.Dup, p.CRLF, p.Broken, p.Partial = 45, 15, 20, 10, 20, 20
			for k, v := range fn("styled", 5, "partial", 10, "with", 3, "omit", 5, "single", 10, "split", 3, "fail", 1, "wrong", 2, "lazybad", 1, "title2", 2, "names", 1, "tq", 2, "tpn", 2) {
				p.Fn[k] = v
			}
			p.Words = append(append([]string{}, plainWords...), specialWords...)
			p.EmptyArg = 4
			p.Engines = []string{"html", "html/nav", "html/style", "text/txt", "text"}
		}, Extra: func(x *Ctx, c *Case, w *Outcome, g *Real) string { return errorShown(g) }})
	})
}

// sameButLineEndings says how the build of a document with LF differs from that
// of the same document with CRLF.
func sameButLineEndings(lf, crlf *Real) string {
	if lf == nil || crlf == nil {
		return ""
	}
	if lf.Panicked != "" || crlf.Panicked != "" {
		return ""
	}
	line := func(r *Real) string { return fmt.Sprint(r.Err["k"], " ", r.Err["file"], ":", r.Err["line"]) }
	if line(lf) != line(crlf) {
		return fmt.Sprintf("with LF: error %s (%s); with CRLF: %s (%s)", line(lf), lf.ErrText, line(crlf), crlf.ErrText)
	}
	if len(lf.Pages) != len(crlf.Pages) {
		return "different pages"
	}
	for i, p := range lf.Pages {
		if q := crlf.Pages[i]; p.Name != q.Name || p.Out != q.Out {
			return fmt.Sprintf("page %s with LF: %q, with CRLF: %q", p.Name, p.Out, q.Out)
		}
	}
	if a, b := show2(lf.Index), show2(crlf.Index); a != b {
		return fmt.Sprintf("search index with LF: %s, with CRLF: %s", a, b)
	}
	return ""
}

// errorShown checks that an error page which is shown for an error is one, and
// says what the error is, as text.
func errorShown(g *Real) string {
	if g.Err["k"] == "none" {
		return ""
	}
	if strings.Contains(g.ErrPage, "failed to render error page") || !strings.Contains(g.ErrPage, "</html>") {
		return "the error page cannot be shown: " + g.ErrPage
	}
	if g.ErrText == "" {
		return "the error has no message"
	}
	if s := foreignMarkup(g.ErrPage); s != "" {
		return s
	}
	flat := func(s string) string { return strings.Join(strings.Fields(strings.ReplaceAll(s, "\r", "\n")), " ") }
	if says := flat(g.ErrSays); says != "" && !strings.Contains(flat(pageText(g.ErrPage)), says) {
		return fmt.Sprintf("the error page does not say %q: %q", says, flat(pageText(g.ErrPage)))
	}
	return ""
}

// foreignMarkup says which elements of an error page are not those of the pages.
func foreignMarkup(page string) string {
	z := html.NewTokenizer(strings.NewReader(page))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return ""
		case html.StartTagToken, html.SelfClosingTagToken:
			raw := string(z.Raw())
			name, _ := z.TagName()
			if string(name) == "i" || string(name) == "script" || string(name) == "b" {
				return fmt.Sprintf("the error page has the markup of the document (%s): %s", raw, page)
			}
		case html.CommentToken:
			return "the error page has a comment of the document: " + page
		}
	}
}
