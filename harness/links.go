package main

import (
	"fmt"
	"net/url"
	"strings"

	"golang.org/x/net/html"
)

// followLinks follows every link of the site that was generated, the way a
// browser does.
func followLinks(x *Ctx, c *Case, w *Outcome, g *Real) string {
	if !rendered(w) || c.Engine != "html" || c.Single || c.Tag != "" || c.Section != "" || c.Broken || g.Err["k"] != "none" {
		return ""
	}
	// two sections with the same tag share a page: a known finding of C13
	names := map[string]bool{}
	for _, p := range w.Pages {
		if names[p.Name] {
			return ""
		}
		names[p.Name] = true
	}
	// targets in partials are collected, but built-in templates do not show them
	if strings.Contains(show2(w.Tree), `"parts":[[`) {
		return ""
	}
	ids := map[string]map[string]bool{}
	type link struct{ page, href string }
	links := []link{}
	for _, p := range g.Pages {
		ids[p.Name] = map[string]bool{}
		text, _ := p.Out.(string)
		z := html.NewTokenizer(strings.NewReader(text))
		for {
			tt := z.Next()
			if tt == html.ErrorToken {
				break
			}
			if tt != html.StartTagToken {
				continue
			}
			t := z.Token()
			for _, a := range t.Attr {
				if a.Key == "id" {
					ids[p.Name][a.Val] = true
				}
				if t.Data == "a" && a.Key == "href" {
					links = append(links, link{p.Name, a.Val})
				}
			}
		}
	}
	for _, e := range g.Index {
		if m, ok := e.(M); ok {
			if s, ok := m["location"].(string); ok {
				links = append(links, link{"", s})
			}
		}
	}
	for _, l := range links {
		base, _ := url.Parse("http://site/" + url.PathEscape(l.page))
		u, err := base.Parse(l.href)
		if err != nil {
			return fmt.Sprintf("page %q: link %q is not a URL: %v", l.page, l.href, err)
		}
		if u.Host != "site" {
			return fmt.Sprintf("page %q: link %q leads out of the site", l.page, l.href)
		}
		page := strings.TrimPrefix(u.Path, "/")
		on, ok := ids[page]
		if !ok || u.RawQuery != "" {
			return fmt.Sprintf("page %q: link %q leads to %q, which is not written", l.page, l.href, page)
		}
		if u.Fragment != "" && !on[u.Fragment] {
			return fmt.Sprintf("page %q: link %q leads to an anchor which does not exist on that page", l.page, l.href)
		}
		x.count("links followed")
	}
	return ""
}

func (x *Ctx) count(what string) {
	n, _ := x.Extra[what].(int)
	x.Extra[what] = n + 1
}
