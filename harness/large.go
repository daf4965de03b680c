package main

import (
	"fmt"
	"strings"
)

// many repeats a text; # is the number.
func many(n int, text string) string {
	s := ""
	for i := 1; i <= n; i++ {
		s += strings.ReplaceAll(text, "#", fmt.Sprint(i))
	}
	return s
}

// large documents: those with more of something than is usual. They are built
// in the ways of the given plan.
func large(like *Plan) *Plan {
	word := many(110, "word# ")
	p := plan("large documents", 1, headTP, "",
		leaf("\\table-of-contents\n\n\\split-sections\n\n"+many(12, "\\section{\n\\title{S#}{s#}\n\ntext # \\reference{s12} \\target{x#}\n\n\\reference{n11}\n}\n\n")+
			"\\section{\n\\title{N}\n\n\\table-of-contents\n\n"+many(11, "\\section{\n\\title{N#}{n#}\n\ny\n}\n\n")+"}\n"),
		leaf("\\split-sections\n\n"+many(11, "\\section{\n\\title{S#}{s#}\n\n\\split-sections\n\n\\section{\n\\title{A}{a#}\n}\n\n\\section{\n\\title{B}{b#}\n\n\\table-of-contents\n\n\\section{\n\\title{C}{c#}\n}\n}\n\n\\section{\n\\title{D}{d#}\n}\n}\n\n")),
		leaf(strings.Repeat(word, 8)+"\\bold{x}\n\\nope{y} z\n"),
		leaf(strings.Repeat(word, 8)+"\\reference{nowhere} z\n\nlast \\fail{x}\n"),
		leaf(many(40, "line #\n")+"\n"+many(20, "para #\n\n")+"\\list"+many(12, "{item # \\note{n#}}")+"\n\n\\ordered-list"+many(11, "{item #}")+"\n\n\\table"+many(11, "{\\table-row"+many(11, "{c#}")+"}")+"\n\n\\definitions"+many(11, "{\\definition{a#}{b#}}")+"\n"),
		leaf(many(9, "\\bold{\\italic{a# ")+many(9, "}}")+"\n\n"+many(9, "\\section{\n\\title{D#}{d#}\n\n\\target{e#}\n\n")+many(9, "}\n\n")+"\n\\reference{d9} \\reference{e9}\n"),
		leaf(many(30, "\\target{tag#}{Tag #}{content #}\n")+"\n"+many(30, "\\reference{tag#}\n")+"\n"),
		leaf(many(15, "\\target{tag#}\n")+"\n\\reference{tag}\n"),
		leaf(many(12, "\\section{\\title{A#}{same}}\n\n")+"\\reference{same}\n"),
		leaf("\\code{{\n"+many(30, "  line #\n    more #\n\n")+"}}\n\n\\code{{{\n"+many(30, "  line #\n\tmore {#\n\n")+"}}}\n"),
		leaf("\\section{\n\\title{"+strings.Repeat("word & ", 150)+"}\n\n"+strings.Repeat("\u00e9", 900)+"\n\\note{"+strings.Repeat("a", 900)+"}\n}\n"),
		leaf(many(12, "\\set-partial{P#}{\\target{p#}}\n")+"\n"+many(12, "\\section{\n\\title{A \\aux{#}}\n\n\\styled{plain}\n\n\\set-partial{Q#}{\\bold{q}}\n}\n\n")+many(12, "\\remember{m#}{r#}")+many(12, "\\recall{m#} \\recall{m#}\n")),
		leaf(strings.Repeat("{-", 40)+strings.Repeat("-}", 40)+many(40, "{- c# -}\n")+"x\n\n"+strings.Repeat("\\{\\}\\\\", 200)+"\n"),
		leaf(many(25, "\n\\list{a#}{\n  b #\n\n  c\n}")+"\n}\n"),
	)
	p.Variants = like.Variants
	return p
}
