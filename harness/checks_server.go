package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

const (
	siteMain1 = "\\title{Main}{index}\n\n\\use-plugin{tp}\n\nmain one \\bold{x} \\reference{sub}\n\n\\include-section{sub.lit}\n"
	siteMain2 = "\\title{Main two}{index}\n\n\\split-sections\n\nmain two \\bold{y}\n\n\\include-section{sub.lit}\n\n\\include-section{d/sub.lit}\n"
	siteMain3 = "\\title{Main}{index}\n\nmain {three\n"
	siteMain4 = "\\title{Main four}{index}\n\nmain four \\reference{two}\n"
	siteSub1  = "\\title{Sub}{sub}\n\nsub one\n"
	siteSub2  = "\\title{Sub two}{sub}\n\nsub two \\bold{z}\n\n\\section{\\title{Within}{two} w}\n"
	siteSub3  = "\\title{Sub}{sub}\n\nsub \\nope\n"
	siteSub4  = "\\title{Sub}{sub}}\n"
	siteOth1  = "\\title{Other}{other}\n\nother one\n"
	siteOth2  = "\\title{Other}{other}\n\nother two \\reference{nope}\n"
)

// ops are all edits of the files with the versions given: file, version...
func ops(hows []string, files ...[]int) []Op {
	out := []Op{}
	for _, f := range files {
		for _, v := range f[1:] {
			for _, how := range hows {
				if f[0] > 0 && v == 0 {
					out = append(out, Op{f[0], 0, "now"})
					break
				}
				out = append(out, Op{f[0], v, how})
			}
		}
	}
	return out
}

func (x *Ctx) sequential(sites ...*Site) error {
	for _, site := range sites {
		start := time.Now()
		answers, hs, err := x.histories("Server", site, 8*time.Minute)
		if err != nil {
			return fmt.Errorf("%s: %w", site.Name, err)
		}
		if err := x.replaySequential(site, answers, hs); err != nil {
			return err
		}
		x.space(site.Name, len(hs), start)
	}
	return nil
}

func (x *Ctx) space(name string, n int, start time.Time) {
	spaces, _ := x.Extra["enumerated_completely"].([]any)
	x.Extra["enumerated_completely"] = append(spaces, M{"space": name, "histories": n, "wall_s": time.Since(start).Seconds()})
}

func init() {
	both := []string{"now", "kept"}
	register("C23", "histories of edits and requests (Server.tla), all up to a bound, replayed against a real server; distinct histories", func(x *Ctx) error {
		files := []SiteFile{siteFile("main.lit", siteMain1, siteMain2, siteMain3, siteMain4), siteFile("sub.lit", siteSub1, siteSub2, siteSub3, siteSub4), siteFile("d/sub.lit", siteOth1, siteOth2)}
		urls := []string{"/", "/sub.html"}
		if err := x.mistaken("Server", "loading only newer files", &Site{Name: "mistaken", Files: files[:2], Tmpls: []string{""}, Urls: urls, Static: []string{}, Newer: true, Rounds: 2, Ops: ops(both, []int{1, 1, 3, 0}, []int{2, 1, 2, 0})}); err != nil {
			return err
		}
		return x.sequential(
			&Site{Name: "edits of two files", Files: files[:2], Tmpls: []string{""}, Urls: urls, Rounds: x.n(3, 4), Ops: ops(both, []int{1, 1, 3, 0}, []int{2, 1, 2, 0})},
			&Site{Name: "edits of three files", Bare: true, Files: files, Tmpls: []string{""}, Urls: append(urls, "/other.html", "/two.html"), Rounds: x.n(2, 3), Ops: ops(both, []int{1, 1, 2, 4, 0}, []int{2, 1, 3, 4, 0}, []int{3, 1, 2, 0})},
			&Site{Name: "edits of files and templates", Files: files[:2], Tmpls: []string{"", "b1", "b2", "bad"}, Urls: urls, Rounds: x.n(2, 3), Ops: ops(both, []int{1, 2, 3, 4}, []int{2, 2, 3}, []int{0, 1, 2, 3, 4})},
		)
	})
	register("C24", "histories of edits of templates, some of them broken, and uses (Templates.tla), all up to a bound, replayed against real engines for HTML and text; distinct histories", func(x *Ctx) error {
		kinds := [][]string{{"good", "good", "fails"}, {"good", "uses", "bad", "blank"}, {"good", "uses", "bad", "blank"}, {"good", "good", "bad"}}
		for _, s := range []*TmplSite{
			{Kinds: kinds, Rounds: 3, Newer: true, Ops: ops(both, []int{3, 1, 2, 0})},
			{Kinds: kinds, Rounds: 3, Forgetful: true, Ops: ops(both, []int{3, 1, 2, 0})},
			{Kinds: kinds, Rounds: 3, Sloppy: true, Ops: ops(both, []int{3, 1, 3, 0})},
		} {
			what := "reloading only newer templates"
			if s.Forgetful {
				what = "not noticing removals"
			} else if s.Sloppy {
				what = "reporting a broken template once"
			}
			if err := x.mistaken("Templates", what, s); err != nil {
				return err
			}
		}
		if err := x.templateHistories("edits of one template", &TmplSite{Kinds: kinds, Rounds: x.n(4, 5), Ops: ops(both, []int{3, 1, 3, 4, 0})}); err != nil {
			return err
		}
		return x.templateHistories("edits of four templates", &TmplSite{Kinds: kinds, Rounds: x.n(2, 3),
			Ops: ops(both, []int{1, 1, 2, 3, 0}, []int{2, 1, 2, 3, 4, 0}, []int{3, 1, 2, 3, 4, 0}, []int{4, 1, 2, 3, 0})})
	})
	register("C26", "for every state of the files and templates, and every history of failures and repairs of them up to a bound, requests for pages, targets, files and nothing (Site.tla, Server.tla); distinct histories", func(x *Ctx) error {
		now := []string{"now"}
		static := []string{"/static.txt", "/page.html", "/dir/a.html", "/dir/b.txt", "/docs/index.html", "/sub.htm", "/over.html"}
		main := siteFile("main.lit",
			"\\title{Main}{index}\n\n\\use-plugin{tp}\n\nmain one \\bold{x} \\target{here}{Here}\n\n\\include-section{sub.lit}\n\n\\section{\\title{A, b}{a b}{\u00e9}{d/x}{over} in}\n",
			"\\title{Main}{index}\n\n\\use-plugin{tp}\n\n\\split-sections\n\nmain two \\reference{a b}\n\n\\include-section{sub.lit}\n\n\\section{\\title{A, b}{a b}{\u00e9}{d/x}{over} in \\target{here}{Here}}\n",
			"\\title{Main}\n\n\\use-plugin{tp}\n\n\\split-sections\n\nmain three\n\n\\include-section{sub.lit}\n\n\\section{\\title{D}{over} \\style{<i>&lt;}{x}}\n",
			"\\title{Main}{index}\n\nmain {four\n",
			"\\title{Main}{index}\n\n\\split-sections\n\nmain five\n\n\\section{\\title{A, b}{a b} \\reference{nope} \\target{here}{Here}}\n\n\\section{\\title{C}{over} \\bold{ok}}\n",
			"main six \\target{here}{Here} \\reference{main}\n",
			"\\title{Main}{index}\n\n\\section{\\title{A}{sub}{over} first}\n\n\\section{\\title{B}{sub} second}\n",
		)
		sub := siteFile("sub.lit",
			"\\title{Sub}{sub}\n\nsub one \\section{\\title{Deep}{deep}{page} \\bold{d}}\n",
			"\\title{Sub}{sub}\n\n\\split-sections\n\nsub two \\use-plugin{tp} \\lazy{ok} \\reference{deep} \\section{\\title{Deep}{deep} \\reference{gone}}\n",
			"\\title{Sub}{sub}\n\nsub \\nope{x}\n",
			"\\title{Sub}{index}\n\nsub four \\use-plugin{tp} \\fail-pretty{oops}\n",
		)
		urls := []string{"/", "/index.html", "/sub.html", "/deep.html", "/here.html", "/a b.html", "/\u00e9.html", "/d/x.html", "/over.html", "/nope.html", "/main.html", "/page.html",
			"/static.txt", "/dir/a.html", "/dir/b.txt", "/dir", "/dir/", "/docs/", "/docs/index.html", "/docs", "/no/", "/.html", "/sub", "/sub.htm", "/sub.lit", "/SUB.html", "/sub.html/", "/sub.html.html", "/index", "/main.lit"}
		p := base("C26")
		p.Engines = []string{"html"}
		p.Tags, p.TagOf, p.Title, p.Depth, p.Chars, p.Files = append(defaultTags, "index", "d/x", "a b"), 70, 85, 3, 220, 40
		p.Fn["target"], p.Fn["ref"], p.Fn["toc"] = 12, 8, 3
		p.FailAny = 10
		if err := x.routes(p, x.n(400, 1000)); err != nil {
			return err
		}
		return x.sequential(
			&Site{Name: "requests in every state", Files: []SiteFile{main, sub}, Tmpls: []string{"", "b1", "fails", "bad"}, Urls: urls, Static: static, Rounds: 2,
				Ops: ops(now, []int{1, 1, 2, 3, 4, 5, 6, 7, 0}, []int{2, 1, 2, 3, 4, 0}, []int{0, 1, 2, 3, 4})},
			&Site{Name: "failures and repairs", Files: []SiteFile{main, sub}, Tmpls: []string{"", "fails", "bad"}, Urls: []string{"/", "/sub.html", "/over.html", "/nope.html", "/static.txt"}, Static: static, Rounds: x.n(3, 4),
				Ops: ops(now, []int{1, 2, 4, 5}, []int{2, 2, 3}, []int{0, 1, 2, 3})},
		)
	})
	register("C25", "schedules of concurrent requests and edits (Requests.tla), all up to a bound, followed by a real server, and traces of a server under stress; each trace is checked against Trace.tla; distinct schedules and traces", func(x *Ctx) error {
		main := siteFile("main.lit",
			"\\title{Main}{index}\n\n\\use-plugin{tp}\n\n\\gate{a}main one \\bold{x} \\reference{sub}\n\n\\include-section{sub.lit}\n",
			"\\title{Main two}{index}\n\n\\use-plugin{tp}\n\n\\gate{a}main two \\bold{y}\n\n\\include-section{sub.lit}\n",
			"\\title{Main}{index}\n\nmain {three\n")
		sub := siteFile("sub.lit",
			"\\title{Sub}{sub}\n\n\\use-plugin{tp}\n\n\\gate{b}sub one \\bold{z} \\lazy-gate{c}\n",
			"\\title{Sub two}{sub}\n\n\\use-plugin{tp}\n\nsub two \\gate{b} \\bold{u} \\lazy-gate{c}\n",
			"\\title{Sub}{sub}\n\n\\use-plugin{tp}\n\n\\gate{b}sub \\nope three\n")
		kinds := [][]string{{"good", "good", "broken"}, {"good", "good", "late"}, {"good", "good", "good", "broken"}}
		site := func(name string, requests, edits int, ops []Op) *Site {
			return &Site{Name: name, Files: []SiteFile{main, sub}, Tmpls: []string{"", "b1", "b2", "bad"}, Urls: []string{"/", "/sub.html"}, Kinds: kinds, Requests: requests, Edits: edits, Ops: ops}
		}
		if n, _ := strconv.Atoi(os.Getenv("VERIF_STRESS")); n > 0 {
			// for trying out
			return x.stressed(stressSites()[2], false, float64(n), 8, 3)
		}
		now := []string{"now"}
		unlocked := site("unlocked", 2, 1, ops(now, []int{0, 4}))
		unlocked.Unlocked, unlocked.Static = true, []string{}
		if err := x.mistaken("Requests", "keeping the lock after a failure", unlocked); err != nil {
			return err
		}
		if err := x.ends(site("ends", 3, x.n(0, 1), ops(now, []int{0, 4}, []int{2, 3}))); err != nil {
			return err
		}
		for _, d := range []string{"handle", "path"} {
			if err := x.cacheDesign(d); err != nil {
				return err
			}
		}
		for _, s := range []*Site{
			site("two requests, one edit", 2, 1, ops(now, []int{1, 2, 3, 0}, []int{2, 2, 3, 0}, []int{0, 2, 3, 4})),
			site("two requests, two edits", 2, 2, ops(now, []int{1, 2}, []int{2, 3, 0}, []int{0, 4})),
			site("three requests", 3, x.n(0, 1), ops(now, []int{2, 2})),
		} {
			if err := x.schedules(s); err != nil || len(x.Violations) > 0 {
				return err
			}
		}
		for i, s := range stressSites() {
			for _, race := range []bool{false, true} {
				if err := x.stressed(s, race, float64(x.n(4, 60)), 2+3*i, 1+i); err != nil || len(x.Violations) > 0 {
					return err
				}
			}
		}
		return nil
	})
}
