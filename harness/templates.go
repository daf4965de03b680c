package main

import (
	"os"
	"path/filepath"
)

// The sets of templates of which Render.tla knows what they do.
var templateSets = map[string]map[string]string{
	"nav": {
		"page.tmpl": `<!DOCTYPE html>
<html><head><title>{{.Title.String}}</title></head>
<body><nav class="nav">{{with .Prev}}<a href="{{.PrimaryTag | url}}" class="prev">{{.Title | stripAux | render}}</a>{{end}}{{with .Next}}<a href="{{.PrimaryTag | url}}" class="next">{{.Title | stripAux | render}}</a>{{end}}<a href="{{.Top.PrimaryTag | url}}" class="top">{{.Top.Title | stripAux | render}}</a></nav>
{{. | render}}
</body></html>
`,
	},
	"style": {
		"fancy-page.tmpl": `<html><body class="fancy">{{. | render}}</body></html>`,
		"fancy.tmpl":      styledSection("fancy"),
		"plain.tmpl":      styledSection("plain"),
		"bold.tmpl":       `<b class="over">{{.Content | render}}</b>`,
		"shout.tmpl":      `<span class="shout">{{.Content | render}}{{with .Partial "Note"}}<i>{{. | render}}</i>{{end}}</span>`,
	},
	// what templates are told about the tree of sections
	"side": {
		"page.tmpl": `<html><head></head><body class="{{if .Parent}}sub{{else}}top{{end}}"><ul class="tops">
{{- range .Top.Children}}<li class="{{if .Contains $}}in{{else}}out{{end}} {{if .IsOrHasChild $}}near{{else}}far{{end}}"><a href="{{.PrimaryTag | url}}">{{.Title | stripAux | render}}</a></li>{{end -}}
</ul>{{with .Parent}}<a href="{{.PrimaryTag | url}}" class="up">{{.Title | stripAux | render}}</a>{{end}}
{{template "sidebar.tmpl" .}}
{{. | render}}</body></html>
`,
		"sidebar.tmpl": `{{define "branch"}}<div class="{{if eq .Section.PrimaryTag.Name .Current.PrimaryTag.Name}}self {{end}}{{if .Section.Contains .Current}}open {{end}}{{if .Section.IsOrHasChild .Current}}near {{end}}{{if .Section.SplitSections}}split {{end}}d{{.Section.Depth}} p{{.Section.PageDepth}} h{{.Section | headerDepth}}">
{{- .Section.Number}} {{.Section.Title | stripAux | render}}{{$current := .Current}}{{range .Section.Children}}{{template "branch" walkContext $current .}}{{end}}</div>{{end}}
{{define "anchors"}}{{range .AnchorTags}}<li class="{{.Name}}"><a href="{{. | url}}">{{.Title | render}}</a></li>{{end}}{{if not .SplitSections}}{{range .Children}}{{if .HasAnchors}}<li><ol>{{template "anchors" .}}</ol></li>{{end}}{{end}}{{end}}{{end}}
{{template "branch" walkContext . .Top}}{{if .HasAnchors}}<ol class="anchors">{{template "anchors" .}}</ol>{{end}}
`,
		"shout.tmpl": `<span class="shout"><a href="{{.Content | rawURL}}">{{.Content | rawHTML}}</a></span>`,
	},
	// likewise, for text
	"tside": {
		"page.tmpl":      `{{define "branch"}}({{.Depth}} {{.PageDepth}} {{.Number}} {{.Title | stripAux | render}} {{.PrimaryTag | url}} {{.PrimaryTag | htmlURL}}{{range .Children}}{{template "branch" .}}{{end}}){{end}}{{template "branch" .}}{{with .Parent}}^{{.PrimaryTag | url}}{{end}}{{if .HasAnchors}}{{range .AnchorTags}}[{{.Name}} {{. | url}} {{. | htmlURL}}]{{end}}{{range .Children}}{{if .HasAnchors}}+{{.PrimaryTag.Name}}{{end}}{{end}}{{end}}|{{. | render}}`,
		"section.tmpl":   `<{{if .Parent}}{{.Number}} {{end}}{{.Title | render}}|{{.Body | render}}{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}>`,
		"bold.tmpl":      `>{{.Content | render | joinLines ">"}}`,
		"italic.tmpl":    `_{{.Content | render}}_`,
		"verbatim.tmpl":  "`{{.Content | render}}`",
		"link.tmpl":      `[{{.Content | render}}]({{.Target}})`,
		"reference.tmpl": `{{if .Tag}}[{{.Display | stripAux | render}}]({{.Tag | url}} {{.Tag | htmlURL}}){{else}}{{.Content | stripAux | render}}{{end}}`,
		"target.tmpl":    `{{""}}`,
		"list.tmpl":      "{{range .Items}}* {{. | render}}\n{{end}}",
		"image.tmpl":     `![{{.Description}}]({{.Path}})`,
	},
	"code": {
		"code-block.tmpl": `<div class="code" data-language="{{.Partial "Language"}}">{{.Content | render}}</div>`,
		"code-flow.tmpl":  `<code class="code" data-language="{{.Partial "Language"}}">{{.Content | render}}</code>`,
	},
	"txt": {
		"bold.tmpl":       `*{{.Content | render}}*`,
		"italic.tmpl":     `_{{.Content | render}}_`,
		"verbatim.tmpl":   "`{{.Content | render}}`",
		"link.tmpl":       `[{{.Content | render}}]({{.Target}})`,
		"reference.tmpl":  `{{if .Tag}}[{{.Display | stripAux | render}}]({{.Tag | url}}){{else}}{{.Content | stripAux | render}}{{end}}`,
		"target.tmpl":     `{{""}}`,
		"list.tmpl":       "{{range .Items}}* {{. | render}}\n{{end}}",
		"image.tmpl":      `![{{.Description}}]({{.Path}})`,
		"fancy-page.tmpl": `fancy page: {{. | render}}`,
		"fancy.tmpl":      styledTextSection("fancy"),
		"plain.tmpl":      styledTextSection("plain"),
	},
}

func styledSection(name string) string {
	return `<section class="` + name + `"><h1>{{.Title | render}}</h1>
{{with .Partial "Intro"}}<header>{{. | render}}</header>{{end}}
{{.Body | render}}
{{if not .SplitSections}}{{range .Children}}{{. | render}}{{end}}{{end}}
</section>
`
}

func styledTextSection(name string) string {
	return `<` + name + `>{{.Title | render}}|{{with .Partial "Intro"}}{{. | render}}{{end}}|{{.Body | render}}` +
		"{{if not .SplitSections}}\n{{range .Children}}\n{{. | render}}\n{{end}}\n{{end}}</" + name + ">"
}

// writeTemplates creates the sets below dir.
func writeTemplates(dir string) error {
	for set, files := range templateSets {
		d := filepath.Join(dir, set)
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		for name, text := range files {
			if err := os.WriteFile(filepath.Join(d, name), []byte(text), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}
