From 0dcaa0c923a0ae85747f4e5bdf9393bb850134b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 01/36] fix: stripping aux from a reference or target without
 content panicked

---
 aux_.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aux_.go b/aux_.go
index a480908..b37440b 100644
--- a/aux_.go
+++ b/aux_.go
@@ -13,6 +13,10 @@ type Aux struct {
 // StripAux recurses through Content and removes any Aux content from any
 // nested sequences.
 func StripAux(content Content) Content {
+	if content == nil {
+		return nil
+	}
+
 	visitor := &stripAuxVisitor{}
 
 	_ = content.Visit(visitor)
-- 
2.43.0


From 15bf61b75f2d99066273a156e40e0b59df553db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 02/36] fix: an argument that evaluates to nothing crashed the
 build

---
 stages/evaluate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index ac0f986..50994b6 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -327,5 +327,10 @@ func (eval Evaluate) evalArg(node ast.Node) (booklit.Content, error) {
 		return nil, err
 	}
 
+	if subEval.Result == nil {
+		// argument resulted in no content (e.g. an invoke with no return value)
+		return booklit.Empty, nil
+	}
+
 	return subEval.Result, nil
 }
-- 
2.43.0


From d2045b2b7db617b7a1d94b14e0ea0d78bb10b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 03/36] fix: a function returning nil content crashed the build

---
 stages/evaluate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 50994b6..aaf55fa 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -249,7 +249,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 				}
 			}
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			if con, ok := val.(booklit.Content); ok {
+				eval.Result = booklit.Append(eval.Result, con)
+			}
 		default:
 			return fmt.Errorf("unknown return type: %s", valType)
 		}
@@ -277,7 +279,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		firstType := methodType.Out(0)
 		switch reflect.New(firstType).Interface().(type) {
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			if con, ok := first.(booklit.Content); ok {
+				eval.Result = booklit.Append(eval.Result, con)
+			}
 		default:
 			return fmt.Errorf("unknown first return type: %s", firstType)
 		}
-- 
2.43.0


From 9e3f7964b6147d020d284666da40c7ca7c7c84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 04/36] fix: locations recorded for a call with nested calls
 pointed at the nested call

---
 stages/evaluate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index aaf55fa..080754d 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -136,8 +136,6 @@ var complainL = new(sync.Mutex)
 //
 // If a booklit.Content is returned, it will be appended to Result.
 func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
-	eval.Section.InvokeLocation = invoke.Location
-
 	methodName := invoke.Method()
 
 	var method reflect.Value
@@ -226,6 +224,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		}
 	}
 
+	// set after evaluating the arguments, as they may contain invokes themselves
+	eval.Section.InvokeLocation = invoke.Location
+
 	result := method.Call(argv)
 
 	switch methodType.NumOut() {
-- 
2.43.0


From 6a2055b6780d0a8eb0ba66ae0357707be1a8bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 05/36] fix: \single-page did not overrule a \split-sections
 preceding it

---
 baselit/plugin.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d78d873..fd0386e 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -94,6 +94,17 @@ func (plugin Plugin) IncludeSection(path string) error {
 
 func (plugin Plugin) SinglePage() {
 	plugin.section.PreventSplitSections = true
+
+	// overrule any \split-sections which came before
+	unsplitSections(plugin.section)
+}
+
+func unsplitSections(section *booklit.Section) {
+	section.SplitSections = false
+
+	for _, child := range section.Children {
+		unsplitSections(child)
+	}
 }
 
 func (plugin Plugin) SplitSections() {
-- 
2.43.0


From e19de2d884ed08ed158f21edbc0d50f828640edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 06/36] fix: Append clobbered shared sequences and dropped
 trailing content

---
 append.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/append.go b/append.go
index bfe65bf..8b00525 100644
--- a/append.go
+++ b/append.go
@@ -2,8 +2,8 @@ package booklit
 
 // Append joins content together in a sequence.
 //
-// When appending to a Sequence, the Sequence is extended. Otherwise a new
-// Sequence is created.
+// When appending to a Sequence, an extended Sequence is returned. Otherwise a
+// new Sequence is created. The given content is never modified.
 func Append(first Content, rest ...Content) Content {
 	appended := first
 
@@ -16,9 +16,10 @@ func Append(first Content, rest ...Content) Content {
 		case nil:
 			appended = content
 		case Sequence:
-			return Sequence(append(v, content))
+			// clip the capacity so that sequences never share a backing array
+			appended = append(v[:len(v):len(v)], content)
 		default:
-			return Sequence([]Content{appended, content})
+			appended = Sequence{appended, content}
 		}
 	}
 
-- 
2.43.0


From a1cf7978d82ac9a82b92dccc8d802d8ef63546cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 07/36] fix: text of a comment following other comments leaked
 into the content

---
 ast/booklit.peg    | 2 +-
 ast/booklit.peg.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index dc0c4dc..fa753fe 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -51,7 +51,7 @@ Line <- [ \t]* words:(Word)+ {
   return Sequence(ifaceNodes(words)), nil
 }
 
-Word <- Comment? val:(String / Invoke / Interpolated) Comment? {
+Word <- Comment* val:(String / Invoke / Interpolated) Comment* {
   return val, nil
 }
 
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index d2bd5be..83dbae3 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -245,7 +245,7 @@ var g = &grammar{
 				expr: &seqExpr{
 					pos: position{line: 54, col: 9, offset: 1038},
 					exprs: []interface{}{
-						&zeroOrOneExpr{
+						&zeroOrMoreExpr{
 							pos: position{line: 54, col: 9, offset: 1038},
 							expr: &ruleRefExpr{
 								pos:  position{line: 54, col: 9, offset: 1038},
@@ -273,7 +273,7 @@ var g = &grammar{
 								},
 							},
 						},
-						&zeroOrOneExpr{
+						&zeroOrMoreExpr{
 							pos: position{line: 54, col: 55, offset: 1084},
 							expr: &ruleRefExpr{
 								pos:  position{line: 54, col: 55, offset: 1084},
-- 
2.43.0


From 5b8afa3c7483432d1c4399c61997f26f2c9434c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 08/36] fix: a code block nested in another one shared its
 indentation level

---
 ast/booklit.peg    |  46 +++--
 ast/booklit.peg.go | 474 +++++++++++++++++++++++----------------------
 2 files changed, 266 insertions(+), 254 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index fa753fe..3150318 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -29,6 +29,27 @@
 
     return nodes
   }
+
+  // ifaceLines strips the indentation of the first line from every line. Each
+  // line begins with a String containing its indentation.
+  func ifaceLines(val interface{}) []Sequence {
+    lines := ifaceSequences(val)
+
+    for i, skip := 0, 0; i < len(lines); i++ {
+      indent := lines[i][0].(String)
+      if i == 0 {
+        skip = len(indent)
+      }
+
+      if skip <= len(indent) {
+        lines[i][0] = indent[skip:]
+      } else {
+        lines[i][0] = String("")
+      }
+    }
+
+    return lines
+  }
 }
 
 Booklit <- node:Paragraphs !. {
@@ -81,14 +102,13 @@ VerbatimString <- str:[^\r\n}]+ {
 }
 
 PreformattedBlockLine <- indent:Indent words:Word* LineBreak {
-  line := []Node{String(indent.(string))}
+  line := []Node{indent.(String)}
   line = append(line, ifaceNodes(words)...)
   return Sequence(line), nil
 }
 
 PreformattedBlock <- LineBreak lines:PreformattedBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return Preformatted(ifaceLines(lines)), nil
 }
 
 VerbatimLine <- words:VerbatimString* {
@@ -96,14 +116,13 @@ VerbatimLine <- words:VerbatimString* {
 }
 
 VerbatimBlockLine <- indent:Indent words:VerbatimString* LineBreak {
-  line := []Node{String(indent.(string))}
+  line := []Node{indent.(String)}
   line = append(line, ifaceNodes(words)...)
   return Sequence(line), nil
 }
 
 VerbatimBlock <- LineBreak lines:VerbatimBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return Preformatted(ifaceLines(lines)), nil
 }
 
 Invoke <- '\\' name:([a-z-]+) args:(Argument*) {
@@ -144,18 +163,5 @@ ParaArg <- paras:Paragraphs [ \t]* {
 Argument <- VerbatimArg / PreformattedArg / Arg
 
 Indent <- [ \t]* {
-  skip := len(c.text)
-
-  i, found := c.globalStore["indent-skip"]
-  if found {
-    skip = i.(int)
-  } else {
-    c.globalStore["indent-skip"] = skip
-  }
-
-  if skip <= len(c.text) {
-    return string(c.text[skip:]), nil
-  } else {
-    return "", nil
-  }
+  return String(c.text), nil
 }
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index 83dbae3..0705574 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -45,29 +45,50 @@ func ifaceNodes(val interface{}) []Node {
 	return nodes
 }
 
+// ifaceLines strips the indentation of the first line from every line. Each
+// line begins with a String containing its indentation.
+func ifaceLines(val interface{}) []Sequence {
+	lines := ifaceSequences(val)
+
+	for i, skip := 0, 0; i < len(lines); i++ {
+		indent := lines[i][0].(String)
+		if i == 0 {
+			skip = len(indent)
+		}
+
+		if skip <= len(indent) {
+			lines[i][0] = indent[skip:]
+		} else {
+			lines[i][0] = String("")
+		}
+	}
+
+	return lines
+}
+
 var g = &grammar{
 	rules: []*rule{
 		{
 			name: "Booklit",
-			pos:  position{line: 34, col: 1, offset: 581},
+			pos:  position{line: 55, col: 1, offset: 1091},
 			expr: &actionExpr{
-				pos: position{line: 34, col: 12, offset: 592},
+				pos: position{line: 55, col: 12, offset: 1102},
 				run: (*parser).callonBooklit1,
 				expr: &seqExpr{
-					pos: position{line: 34, col: 12, offset: 592},
+					pos: position{line: 55, col: 12, offset: 1102},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 34, col: 12, offset: 592},
+							pos:   position{line: 55, col: 12, offset: 1102},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 34, col: 17, offset: 597},
+								pos:  position{line: 55, col: 17, offset: 1107},
 								name: "Paragraphs",
 							},
 						},
 						&notExpr{
-							pos: position{line: 34, col: 28, offset: 608},
+							pos: position{line: 55, col: 28, offset: 1118},
 							expr: &anyMatcher{
-								line: 34, col: 29, offset: 609,
+								line: 55, col: 29, offset: 1119,
 							},
 						},
 					},
@@ -76,43 +97,43 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraphs",
-			pos:  position{line: 38, col: 1, offset: 635},
+			pos:  position{line: 59, col: 1, offset: 1145},
 			expr: &actionExpr{
-				pos: position{line: 38, col: 15, offset: 649},
+				pos: position{line: 59, col: 15, offset: 1159},
 				run: (*parser).callonParagraphs1,
 				expr: &seqExpr{
-					pos: position{line: 38, col: 15, offset: 649},
+					pos: position{line: 59, col: 15, offset: 1159},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 38, col: 15, offset: 649},
+							pos: position{line: 59, col: 15, offset: 1159},
 							expr: &ruleRefExpr{
-								pos:  position{line: 38, col: 15, offset: 649},
+								pos:  position{line: 59, col: 15, offset: 1159},
 								name: "CommentSpacing",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 38, col: 31, offset: 665},
+							pos:   position{line: 59, col: 31, offset: 1175},
 							label: "paragraphs",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 38, col: 42, offset: 676},
+								pos: position{line: 59, col: 42, offset: 1186},
 								expr: &actionExpr{
-									pos: position{line: 38, col: 43, offset: 677},
+									pos: position{line: 59, col: 43, offset: 1187},
 									run: (*parser).callonParagraphs7,
 									expr: &seqExpr{
-										pos: position{line: 38, col: 43, offset: 677},
+										pos: position{line: 59, col: 43, offset: 1187},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 38, col: 43, offset: 677},
+												pos:   position{line: 59, col: 43, offset: 1187},
 												label: "p",
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 45, offset: 679},
+													pos:  position{line: 59, col: 45, offset: 1189},
 													name: "Paragraph",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 38, col: 55, offset: 689},
+												pos: position{line: 59, col: 55, offset: 1199},
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 55, offset: 689},
+													pos:  position{line: 59, col: 55, offset: 1199},
 													name: "CommentSpacing",
 												},
 											},
@@ -127,18 +148,18 @@ var g = &grammar{
 		},
 		{
 			name: "LineBreak",
-			pos:  position{line: 42, col: 1, offset: 777},
+			pos:  position{line: 63, col: 1, offset: 1287},
 			expr: &choiceExpr{
-				pos: position{line: 42, col: 14, offset: 790},
+				pos: position{line: 63, col: 14, offset: 1300},
 				alternatives: []interface{}{
 					&litMatcher{
-						pos:        position{line: 42, col: 14, offset: 790},
+						pos:        position{line: 63, col: 14, offset: 1300},
 						val:        "\n",
 						ignoreCase: false,
 						want:       "\"\\n\"",
 					},
 					&litMatcher{
-						pos:        position{line: 42, col: 21, offset: 797},
+						pos:        position{line: 63, col: 21, offset: 1307},
 						val:        "\r\n",
 						ignoreCase: false,
 						want:       "\"\\r\\n\"",
@@ -148,16 +169,16 @@ var g = &grammar{
 		},
 		{
 			name: "CommentSpacing",
-			pos:  position{line: 44, col: 1, offset: 805},
+			pos:  position{line: 65, col: 1, offset: 1315},
 			expr: &choiceExpr{
-				pos: position{line: 44, col: 19, offset: 823},
+				pos: position{line: 65, col: 19, offset: 1333},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 19, offset: 823},
+						pos:  position{line: 65, col: 19, offset: 1333},
 						name: "LineBreak",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 31, offset: 835},
+						pos:  position{line: 65, col: 31, offset: 1345},
 						name: "Comment",
 					},
 				},
@@ -165,33 +186,33 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 46, col: 1, offset: 844},
+			pos:  position{line: 67, col: 1, offset: 1354},
 			expr: &actionExpr{
-				pos: position{line: 46, col: 14, offset: 857},
+				pos: position{line: 67, col: 14, offset: 1367},
 				run: (*parser).callonParagraph1,
 				expr: &labeledExpr{
-					pos:   position{line: 46, col: 14, offset: 857},
+					pos:   position{line: 67, col: 14, offset: 1367},
 					label: "lines",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 46, col: 20, offset: 863},
+						pos: position{line: 67, col: 20, offset: 1373},
 						expr: &actionExpr{
-							pos: position{line: 46, col: 21, offset: 864},
+							pos: position{line: 67, col: 21, offset: 1374},
 							run: (*parser).callonParagraph4,
 							expr: &seqExpr{
-								pos: position{line: 46, col: 21, offset: 864},
+								pos: position{line: 67, col: 21, offset: 1374},
 								exprs: []interface{}{
 									&labeledExpr{
-										pos:   position{line: 46, col: 21, offset: 864},
+										pos:   position{line: 67, col: 21, offset: 1374},
 										label: "l",
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 23, offset: 866},
+											pos:  position{line: 67, col: 23, offset: 1376},
 											name: "Line",
 										},
 									},
 									&zeroOrOneExpr{
-										pos: position{line: 46, col: 28, offset: 871},
+										pos: position{line: 67, col: 28, offset: 1381},
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 28, offset: 871},
+											pos:  position{line: 67, col: 28, offset: 1381},
 											name: "LineBreak",
 										},
 									},
@@ -204,17 +225,17 @@ var g = &grammar{
 		},
 		{
 			name: "Line",
-			pos:  position{line: 50, col: 1, offset: 954},
+			pos:  position{line: 71, col: 1, offset: 1464},
 			expr: &actionExpr{
-				pos: position{line: 50, col: 9, offset: 962},
+				pos: position{line: 71, col: 9, offset: 1472},
 				run: (*parser).callonLine1,
 				expr: &seqExpr{
-					pos: position{line: 50, col: 9, offset: 962},
+					pos: position{line: 71, col: 9, offset: 1472},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 50, col: 9, offset: 962},
+							pos: position{line: 71, col: 9, offset: 1472},
 							expr: &charClassMatcher{
-								pos:        position{line: 50, col: 9, offset: 962},
+								pos:        position{line: 71, col: 9, offset: 1472},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -222,12 +243,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 50, col: 16, offset: 969},
+							pos:   position{line: 71, col: 16, offset: 1479},
 							label: "words",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 50, col: 22, offset: 975},
+								pos: position{line: 71, col: 22, offset: 1485},
 								expr: &ruleRefExpr{
-									pos:  position{line: 50, col: 23, offset: 976},
+									pos:  position{line: 71, col: 23, offset: 1486},
 									name: "Word",
 								},
 							},
@@ -238,45 +259,45 @@ var g = &grammar{
 		},
 		{
 			name: "Word",
-			pos:  position{line: 54, col: 1, offset: 1030},
+			pos:  position{line: 75, col: 1, offset: 1540},
 			expr: &actionExpr{
-				pos: position{line: 54, col: 9, offset: 1038},
+				pos: position{line: 75, col: 9, offset: 1548},
 				run: (*parser).callonWord1,
 				expr: &seqExpr{
-					pos: position{line: 54, col: 9, offset: 1038},
+					pos: position{line: 75, col: 9, offset: 1548},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 54, col: 9, offset: 1038},
+							pos: position{line: 75, col: 9, offset: 1548},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 9, offset: 1038},
+								pos:  position{line: 75, col: 9, offset: 1548},
 								name: "Comment",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 54, col: 18, offset: 1047},
+							pos:   position{line: 75, col: 18, offset: 1557},
 							label: "val",
 							expr: &choiceExpr{
-								pos: position{line: 54, col: 23, offset: 1052},
+								pos: position{line: 75, col: 23, offset: 1562},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 23, offset: 1052},
+										pos:  position{line: 75, col: 23, offset: 1562},
 										name: "String",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 32, offset: 1061},
+										pos:  position{line: 75, col: 32, offset: 1571},
 										name: "Invoke",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 41, offset: 1070},
+										pos:  position{line: 75, col: 41, offset: 1580},
 										name: "Interpolated",
 									},
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 54, col: 55, offset: 1084},
+							pos: position{line: 75, col: 55, offset: 1594},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 55, offset: 1084},
+								pos:  position{line: 75, col: 55, offset: 1594},
 								name: "Comment",
 							},
 						},
@@ -286,14 +307,14 @@ var g = &grammar{
 		},
 		{
 			name: "Comment",
-			pos:  position{line: 58, col: 1, offset: 1116},
+			pos:  position{line: 79, col: 1, offset: 1626},
 			expr: &seqExpr{
-				pos: position{line: 58, col: 12, offset: 1127},
+				pos: position{line: 79, col: 12, offset: 1637},
 				exprs: []interface{}{
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 12, offset: 1127},
+						pos: position{line: 79, col: 12, offset: 1637},
 						expr: &charClassMatcher{
-							pos:        position{line: 58, col: 12, offset: 1127},
+							pos:        position{line: 79, col: 12, offset: 1637},
 							val:        "[ \\t]",
 							chars:      []rune{' ', '\t'},
 							ignoreCase: false,
@@ -301,34 +322,34 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 19, offset: 1134},
+						pos:        position{line: 79, col: 19, offset: 1644},
 						val:        "{-",
 						ignoreCase: false,
 						want:       "\"{-\"",
 					},
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 24, offset: 1139},
+						pos: position{line: 79, col: 24, offset: 1649},
 						expr: &choiceExpr{
-							pos: position{line: 58, col: 25, offset: 1140},
+							pos: position{line: 79, col: 25, offset: 1650},
 							alternatives: []interface{}{
 								&ruleRefExpr{
-									pos:  position{line: 58, col: 25, offset: 1140},
+									pos:  position{line: 79, col: 25, offset: 1650},
 									name: "Comment",
 								},
 								&seqExpr{
-									pos: position{line: 58, col: 35, offset: 1150},
+									pos: position{line: 79, col: 35, offset: 1660},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 58, col: 35, offset: 1150},
+											pos: position{line: 79, col: 35, offset: 1660},
 											expr: &litMatcher{
-												pos:        position{line: 58, col: 36, offset: 1151},
+												pos:        position{line: 79, col: 36, offset: 1661},
 												val:        "-}",
 												ignoreCase: false,
 												want:       "\"-}\"",
 											},
 										},
 										&anyMatcher{
-											line: 58, col: 41, offset: 1156,
+											line: 79, col: 41, offset: 1666,
 										},
 									},
 								},
@@ -336,7 +357,7 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 45, offset: 1160},
+						pos:        position{line: 79, col: 45, offset: 1670},
 						val:        "-}",
 						ignoreCase: false,
 						want:       "\"-}\"",
@@ -346,32 +367,32 @@ var g = &grammar{
 		},
 		{
 			name: "Interpolated",
-			pos:  position{line: 60, col: 1, offset: 1166},
+			pos:  position{line: 81, col: 1, offset: 1676},
 			expr: &actionExpr{
-				pos: position{line: 60, col: 17, offset: 1182},
+				pos: position{line: 81, col: 17, offset: 1692},
 				run: (*parser).callonInterpolated1,
 				expr: &seqExpr{
-					pos: position{line: 60, col: 17, offset: 1182},
+					pos: position{line: 81, col: 17, offset: 1692},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 60, col: 17, offset: 1182},
+							pos:        position{line: 81, col: 17, offset: 1692},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 60, col: 21, offset: 1186},
+							pos:   position{line: 81, col: 21, offset: 1696},
 							label: "word",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 60, col: 26, offset: 1191},
+								pos: position{line: 81, col: 26, offset: 1701},
 								expr: &ruleRefExpr{
-									pos:  position{line: 60, col: 26, offset: 1191},
+									pos:  position{line: 81, col: 26, offset: 1701},
 									name: "Word",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 60, col: 32, offset: 1197},
+							pos:        position{line: 81, col: 32, offset: 1707},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -382,35 +403,35 @@ var g = &grammar{
 		},
 		{
 			name: "WrappedLine",
-			pos:  position{line: 68, col: 1, offset: 1288},
+			pos:  position{line: 89, col: 1, offset: 1798},
 			expr: &actionExpr{
-				pos: position{line: 68, col: 16, offset: 1303},
+				pos: position{line: 89, col: 16, offset: 1813},
 				run: (*parser).callonWrappedLine1,
 				expr: &seqExpr{
-					pos: position{line: 68, col: 16, offset: 1303},
+					pos: position{line: 89, col: 16, offset: 1813},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 68, col: 16, offset: 1303},
+							pos:   position{line: 89, col: 16, offset: 1813},
 							label: "firstWord",
 							expr: &ruleRefExpr{
-								pos:  position{line: 68, col: 26, offset: 1313},
+								pos:  position{line: 89, col: 26, offset: 1823},
 								name: "Word",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 68, col: 31, offset: 1318},
+							pos:   position{line: 89, col: 31, offset: 1828},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 68, col: 37, offset: 1324},
+								pos: position{line: 89, col: 37, offset: 1834},
 								expr: &choiceExpr{
-									pos: position{line: 68, col: 38, offset: 1325},
+									pos: position{line: 89, col: 38, offset: 1835},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 38, offset: 1325},
+											pos:  position{line: 89, col: 38, offset: 1835},
 											name: "Word",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 45, offset: 1332},
+											pos:  position{line: 89, col: 45, offset: 1842},
 											name: "Split",
 										},
 									},
@@ -423,21 +444,21 @@ var g = &grammar{
 		},
 		{
 			name: "Split",
-			pos:  position{line: 73, col: 1, offset: 1463},
+			pos:  position{line: 94, col: 1, offset: 1973},
 			expr: &actionExpr{
-				pos: position{line: 73, col: 10, offset: 1472},
+				pos: position{line: 94, col: 10, offset: 1982},
 				run: (*parser).callonSplit1,
 				expr: &seqExpr{
-					pos: position{line: 73, col: 10, offset: 1472},
+					pos: position{line: 94, col: 10, offset: 1982},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 73, col: 10, offset: 1472},
+							pos:  position{line: 94, col: 10, offset: 1982},
 							name: "LineBreak",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 73, col: 20, offset: 1482},
+							pos: position{line: 94, col: 20, offset: 1992},
 							expr: &charClassMatcher{
-								pos:        position{line: 73, col: 20, offset: 1482},
+								pos:        position{line: 94, col: 20, offset: 1992},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -450,20 +471,20 @@ var g = &grammar{
 		},
 		{
 			name: "String",
-			pos:  position{line: 75, col: 1, offset: 1518},
+			pos:  position{line: 96, col: 1, offset: 2028},
 			expr: &choiceExpr{
-				pos: position{line: 75, col: 11, offset: 1528},
+				pos: position{line: 96, col: 11, offset: 2038},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 75, col: 11, offset: 1528},
+						pos: position{line: 96, col: 11, offset: 2038},
 						run: (*parser).callonString2,
 						expr: &labeledExpr{
-							pos:   position{line: 75, col: 11, offset: 1528},
+							pos:   position{line: 96, col: 11, offset: 2038},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 75, col: 15, offset: 1532},
+								pos: position{line: 96, col: 15, offset: 2042},
 								expr: &charClassMatcher{
-									pos:        position{line: 75, col: 15, offset: 1532},
+									pos:        position{line: 96, col: 15, offset: 2042},
 									val:        "[^\\\\{}\\r\\n]",
 									chars:      []rune{'\\', '{', '}', '\r', '\n'},
 									ignoreCase: false,
@@ -473,19 +494,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 75, col: 61, offset: 1578},
+						pos: position{line: 96, col: 61, offset: 2088},
 						run: (*parser).callonString6,
 						expr: &seqExpr{
-							pos: position{line: 75, col: 61, offset: 1578},
+							pos: position{line: 96, col: 61, offset: 2088},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 75, col: 61, offset: 1578},
+									pos:        position{line: 96, col: 61, offset: 2088},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&charClassMatcher{
-									pos:        position{line: 75, col: 66, offset: 1583},
+									pos:        position{line: 96, col: 66, offset: 2093},
 									val:        "[\\\\{}]",
 									chars:      []rune{'\\', '{', '}'},
 									ignoreCase: false,
@@ -499,20 +520,20 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimString",
-			pos:  position{line: 77, col: 1, offset: 1626},
+			pos:  position{line: 98, col: 1, offset: 2136},
 			expr: &choiceExpr{
-				pos: position{line: 77, col: 19, offset: 1644},
+				pos: position{line: 98, col: 19, offset: 2154},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 77, col: 19, offset: 1644},
+						pos: position{line: 98, col: 19, offset: 2154},
 						run: (*parser).callonVerbatimString2,
 						expr: &labeledExpr{
-							pos:   position{line: 77, col: 19, offset: 1644},
+							pos:   position{line: 98, col: 19, offset: 2154},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 77, col: 23, offset: 1648},
+								pos: position{line: 98, col: 23, offset: 2158},
 								expr: &charClassMatcher{
-									pos:        position{line: 77, col: 23, offset: 1648},
+									pos:        position{line: 98, col: 23, offset: 2158},
 									val:        "[^\\r\\n}]",
 									chars:      []rune{'\r', '\n', '}'},
 									ignoreCase: false,
@@ -522,21 +543,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 79, col: 5, offset: 1693},
+						pos: position{line: 100, col: 5, offset: 2203},
 						run: (*parser).callonVerbatimString6,
 						expr: &seqExpr{
-							pos: position{line: 79, col: 5, offset: 1693},
+							pos: position{line: 100, col: 5, offset: 2203},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 79, col: 5, offset: 1693},
+									pos:        position{line: 100, col: 5, offset: 2203},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
 								},
 								&notExpr{
-									pos: position{line: 79, col: 9, offset: 1697},
+									pos: position{line: 100, col: 9, offset: 2207},
 									expr: &litMatcher{
-										pos:        position{line: 79, col: 10, offset: 1698},
+										pos:        position{line: 100, col: 10, offset: 2208},
 										val:        "}}",
 										ignoreCase: false,
 										want:       "\"}}\"",
@@ -550,34 +571,34 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlockLine",
-			pos:  position{line: 83, col: 1, offset: 1737},
+			pos:  position{line: 104, col: 1, offset: 2247},
 			expr: &actionExpr{
-				pos: position{line: 83, col: 26, offset: 1762},
+				pos: position{line: 104, col: 26, offset: 2272},
 				run: (*parser).callonPreformattedBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 83, col: 26, offset: 1762},
+					pos: position{line: 104, col: 26, offset: 2272},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 83, col: 26, offset: 1762},
+							pos:   position{line: 104, col: 26, offset: 2272},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 83, col: 33, offset: 1769},
+								pos:  position{line: 104, col: 33, offset: 2279},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 83, col: 40, offset: 1776},
+							pos:   position{line: 104, col: 40, offset: 2286},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 83, col: 46, offset: 1782},
+								pos: position{line: 104, col: 46, offset: 2292},
 								expr: &ruleRefExpr{
-									pos:  position{line: 83, col: 46, offset: 1782},
+									pos:  position{line: 104, col: 46, offset: 2292},
 									name: "Word",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 83, col: 52, offset: 1788},
+							pos:  position{line: 104, col: 52, offset: 2298},
 							name: "LineBreak",
 						},
 					},
@@ -586,32 +607,32 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 89, col: 1, offset: 1918},
+			pos:  position{line: 110, col: 1, offset: 2420},
 			expr: &actionExpr{
-				pos: position{line: 89, col: 22, offset: 1939},
+				pos: position{line: 110, col: 22, offset: 2441},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 89, col: 22, offset: 1939},
+					pos: position{line: 110, col: 22, offset: 2441},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 89, col: 22, offset: 1939},
+							pos:  position{line: 110, col: 22, offset: 2441},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 89, col: 32, offset: 1949},
+							pos:   position{line: 110, col: 32, offset: 2451},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 89, col: 38, offset: 1955},
+								pos: position{line: 110, col: 38, offset: 2457},
 								expr: &ruleRefExpr{
-									pos:  position{line: 89, col: 38, offset: 1955},
+									pos:  position{line: 110, col: 38, offset: 2457},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 89, col: 61, offset: 1978},
+							pos: position{line: 110, col: 61, offset: 2480},
 							expr: &charClassMatcher{
-								pos:        position{line: 89, col: 61, offset: 1978},
+								pos:        position{line: 110, col: 61, offset: 2480},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -624,17 +645,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 94, col: 1, offset: 2079},
+			pos:  position{line: 114, col: 1, offset: 2538},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 17, offset: 2095},
+				pos: position{line: 114, col: 17, offset: 2554},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 94, col: 17, offset: 2095},
+					pos:   position{line: 114, col: 17, offset: 2554},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 94, col: 23, offset: 2101},
+						pos: position{line: 114, col: 23, offset: 2560},
 						expr: &ruleRefExpr{
-							pos:  position{line: 94, col: 23, offset: 2101},
+							pos:  position{line: 114, col: 23, offset: 2560},
 							name: "VerbatimString",
 						},
 					},
@@ -643,34 +664,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 98, col: 1, offset: 2164},
+			pos:  position{line: 118, col: 1, offset: 2623},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 22, offset: 2185},
+				pos: position{line: 118, col: 22, offset: 2644},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 22, offset: 2185},
+					pos: position{line: 118, col: 22, offset: 2644},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 98, col: 22, offset: 2185},
+							pos:   position{line: 118, col: 22, offset: 2644},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 29, offset: 2192},
+								pos:  position{line: 118, col: 29, offset: 2651},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 36, offset: 2199},
+							pos:   position{line: 118, col: 36, offset: 2658},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 98, col: 42, offset: 2205},
+								pos: position{line: 118, col: 42, offset: 2664},
 								expr: &ruleRefExpr{
-									pos:  position{line: 98, col: 42, offset: 2205},
+									pos:  position{line: 118, col: 42, offset: 2664},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 58, offset: 2221},
+							pos:  position{line: 118, col: 58, offset: 2680},
 							name: "LineBreak",
 						},
 					},
@@ -679,32 +700,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 104, col: 1, offset: 2351},
+			pos:  position{line: 124, col: 1, offset: 2802},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 18, offset: 2368},
+				pos: position{line: 124, col: 18, offset: 2819},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 18, offset: 2368},
+					pos: position{line: 124, col: 18, offset: 2819},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 104, col: 18, offset: 2368},
+							pos:  position{line: 124, col: 18, offset: 2819},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 104, col: 28, offset: 2378},
+							pos:   position{line: 124, col: 28, offset: 2829},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 104, col: 34, offset: 2384},
+								pos: position{line: 124, col: 34, offset: 2835},
 								expr: &ruleRefExpr{
-									pos:  position{line: 104, col: 34, offset: 2384},
+									pos:  position{line: 124, col: 34, offset: 2835},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 53, offset: 2403},
+							pos: position{line: 124, col: 53, offset: 2854},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 53, offset: 2403},
+								pos:        position{line: 124, col: 53, offset: 2854},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -717,26 +738,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 109, col: 1, offset: 2504},
+			pos:  position{line: 128, col: 1, offset: 2912},
 			expr: &actionExpr{
-				pos: position{line: 109, col: 11, offset: 2514},
+				pos: position{line: 128, col: 11, offset: 2922},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 109, col: 11, offset: 2514},
+					pos: position{line: 128, col: 11, offset: 2922},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 109, col: 11, offset: 2514},
+							pos:        position{line: 128, col: 11, offset: 2922},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 16, offset: 2519},
+							pos:   position{line: 128, col: 16, offset: 2927},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 109, col: 22, offset: 2525},
+								pos: position{line: 128, col: 22, offset: 2933},
 								expr: &charClassMatcher{
-									pos:        position{line: 109, col: 22, offset: 2525},
+									pos:        position{line: 128, col: 22, offset: 2933},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -746,12 +767,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 31, offset: 2534},
+							pos:   position{line: 128, col: 31, offset: 2942},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 109, col: 37, offset: 2540},
+								pos: position{line: 128, col: 37, offset: 2948},
 								expr: &ruleRefExpr{
-									pos:  position{line: 109, col: 37, offset: 2540},
+									pos:  position{line: 128, col: 37, offset: 2948},
 									name: "Argument",
 								},
 							},
@@ -762,38 +783,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 122, col: 1, offset: 2756},
+			pos:  position{line: 141, col: 1, offset: 3164},
 			expr: &actionExpr{
-				pos: position{line: 122, col: 16, offset: 2771},
+				pos: position{line: 141, col: 16, offset: 3179},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 122, col: 16, offset: 2771},
+					pos: position{line: 141, col: 16, offset: 3179},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 122, col: 16, offset: 2771},
+							pos:        position{line: 141, col: 16, offset: 3179},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 122, col: 22, offset: 2777},
+							pos:   position{line: 141, col: 22, offset: 3185},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 122, col: 28, offset: 2783},
+								pos: position{line: 141, col: 28, offset: 3191},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 28, offset: 2783},
+										pos:  position{line: 141, col: 28, offset: 3191},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 44, offset: 2799},
+										pos:  position{line: 141, col: 44, offset: 3207},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 122, col: 58, offset: 2813},
+							pos:        position{line: 141, col: 58, offset: 3221},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -804,29 +825,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 126, col: 1, offset: 2843},
+			pos:  position{line: 145, col: 1, offset: 3251},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 20, offset: 2862},
+				pos: position{line: 145, col: 20, offset: 3270},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 20, offset: 2862},
+					pos: position{line: 145, col: 20, offset: 3270},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 126, col: 20, offset: 2862},
+							pos:        position{line: 145, col: 20, offset: 3270},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 25, offset: 2867},
+							pos:   position{line: 145, col: 25, offset: 3275},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 126, col: 30, offset: 2872},
+								pos:  position{line: 145, col: 30, offset: 3280},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 126, col: 48, offset: 2890},
+							pos:        position{line: 145, col: 48, offset: 3298},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -837,14 +858,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 130, col: 1, offset: 2919},
+			pos:  position{line: 149, col: 1, offset: 3327},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 13, offset: 2931},
+				pos: position{line: 149, col: 13, offset: 3339},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 130, col: 13, offset: 2931},
+					pos: position{line: 149, col: 13, offset: 3339},
 					expr: &ruleRefExpr{
-						pos:  position{line: 130, col: 13, offset: 2931},
+						pos:  position{line: 149, col: 13, offset: 3339},
 						name: "CommentSpacing",
 					},
 				},
@@ -852,37 +873,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 132, col: 1, offset: 2968},
+			pos:  position{line: 151, col: 1, offset: 3376},
 			expr: &actionExpr{
-				pos: position{line: 132, col: 8, offset: 2975},
+				pos: position{line: 151, col: 8, offset: 3383},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 132, col: 8, offset: 2975},
+					pos: position{line: 151, col: 8, offset: 3383},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 132, col: 8, offset: 2975},
+							pos:        position{line: 151, col: 8, offset: 3383},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 132, col: 12, offset: 2979},
+							pos:   position{line: 151, col: 12, offset: 3387},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 132, col: 17, offset: 2984},
+								pos: position{line: 151, col: 17, offset: 3392},
 								expr: &choiceExpr{
-									pos: position{line: 132, col: 18, offset: 2985},
+									pos: position{line: 151, col: 18, offset: 3393},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 18, offset: 2985},
+											pos:  position{line: 151, col: 18, offset: 3393},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 32, offset: 2999},
+											pos:  position{line: 151, col: 32, offset: 3407},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 42, offset: 3009},
+											pos:  position{line: 151, col: 42, offset: 3417},
 											name: "EmptyArg",
 										},
 									},
@@ -890,7 +911,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 132, col: 53, offset: 3020},
+							pos:        position{line: 151, col: 53, offset: 3428},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -901,25 +922,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 140, col: 1, offset: 3111},
+			pos:  position{line: 159, col: 1, offset: 3519},
 			expr: &actionExpr{
-				pos: position{line: 140, col: 12, offset: 3122},
+				pos: position{line: 159, col: 12, offset: 3530},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 140, col: 12, offset: 3122},
+					pos: position{line: 159, col: 12, offset: 3530},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 140, col: 12, offset: 3122},
+							pos:   position{line: 159, col: 12, offset: 3530},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 140, col: 18, offset: 3128},
+								pos:  position{line: 159, col: 18, offset: 3536},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 140, col: 29, offset: 3139},
+							pos: position{line: 159, col: 29, offset: 3547},
 							expr: &charClassMatcher{
-								pos:        position{line: 140, col: 29, offset: 3139},
+								pos:        position{line: 159, col: 29, offset: 3547},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -932,20 +953,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 144, col: 1, offset: 3171},
+			pos:  position{line: 163, col: 1, offset: 3579},
 			expr: &choiceExpr{
-				pos: position{line: 144, col: 13, offset: 3183},
+				pos: position{line: 163, col: 13, offset: 3591},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 13, offset: 3183},
+						pos:  position{line: 163, col: 13, offset: 3591},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 27, offset: 3197},
+						pos:  position{line: 163, col: 27, offset: 3605},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 45, offset: 3215},
+						pos:  position{line: 163, col: 45, offset: 3623},
 						name: "Arg",
 					},
 				},
@@ -953,14 +974,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 146, col: 1, offset: 3220},
+			pos:  position{line: 165, col: 1, offset: 3628},
 			expr: &actionExpr{
-				pos: position{line: 146, col: 11, offset: 3230},
+				pos: position{line: 165, col: 11, offset: 3638},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 146, col: 11, offset: 3230},
+					pos: position{line: 165, col: 11, offset: 3638},
 					expr: &charClassMatcher{
-						pos:        position{line: 146, col: 11, offset: 3230},
+						pos:        position{line: 165, col: 11, offset: 3638},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1118,7 +1139,7 @@ func (p *parser) callonVerbatimString6() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlockLine1(indent, words interface{}) (interface{}, error) {
-	line := []Node{String(indent.(string))}
+	line := []Node{indent.(String)}
 	line = append(line, ifaceNodes(words)...)
 	return Sequence(line), nil
 }
@@ -1130,8 +1151,7 @@ func (p *parser) callonPreformattedBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return Preformatted(ifaceLines(lines)), nil
 }
 
 func (p *parser) callonPreformattedBlock1() (interface{}, error) {
@@ -1151,7 +1171,7 @@ func (p *parser) callonVerbatimLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlockLine1(indent, words interface{}) (interface{}, error) {
-	line := []Node{String(indent.(string))}
+	line := []Node{indent.(String)}
 	line = append(line, ifaceNodes(words)...)
 	return Sequence(line), nil
 }
@@ -1163,8 +1183,7 @@ func (p *parser) callonVerbatimBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return Preformatted(ifaceLines(lines)), nil
 }
 
 func (p *parser) callonVerbatimBlock1() (interface{}, error) {
@@ -1247,20 +1266,7 @@ func (p *parser) callonParaArg1() (interface{}, error) {
 }
 
 func (c *current) onIndent1() (interface{}, error) {
-	skip := len(c.text)
-
-	i, found := c.globalStore["indent-skip"]
-	if found {
-		skip = i.(int)
-	} else {
-		c.globalStore["indent-skip"] = skip
-	}
-
-	if skip <= len(c.text) {
-		return string(c.text[skip:]), nil
-	} else {
-		return "", nil
-	}
+	return String(c.text), nil
 }
 
 func (p *parser) callonIndent1() (interface{}, error) {
-- 
2.43.0


From c441656364fdfe57bc25f43abae92a165563518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 09/36] fix: the error page failed on an error at a newline and
 cut multi-byte characters

---
 errors.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/errors.go b/errors.go
index 1dd3bb0..7414495 100644
--- a/errors.go
+++ b/errors.go
@@ -382,11 +382,15 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 		data.EOF = true
 	}
 
+	// columns count runes; an error at a newline has column 0
+	runes := []rune(line)
 	offset := loc.NodeLocation.Col - 1
-	if len(line) >= offset+loc.Length {
-		data.Prefix = line[0:offset]
-		data.Annotated = line[offset : offset+loc.Length]
-		data.Suffix = line[offset+loc.Length:]
+	if offset >= 0 && len(runes) >= offset+loc.Length {
+		data.Prefix = string(runes[0:offset])
+		data.Annotated = string(runes[offset : offset+loc.Length])
+		data.Suffix = string(runes[offset+loc.Length:])
+	} else {
+		data.Prefix = line
 	}
 
 	return errorTmpl.Lookup("annotated-line.tmpl").Execute(out, data)
-- 
2.43.0


From 4a4f60ff5353582b49891a59a6cb73b5e73ebab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 10/36] fix: errors following lines longer than 4096 bytes
 showed the wrong line

---
 errors.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/errors.go b/errors.go
index 7414495..62d3e8c 100644
--- a/errors.go
+++ b/errors.go
@@ -407,20 +407,16 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 	buf := bufio.NewReader(file)
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
-		_, _, err := buf.ReadLine()
+		_, err := buf.ReadString('\n')
 		if err != nil {
 			return "", err
 		}
 	}
 
-	lineInQuestion, _, err := buf.ReadLine()
-	if err != nil {
-		if err == io.EOF {
-			return "", nil
-		}
-
+	lineInQuestion, err := buf.ReadString('\n')
+	if err != nil && err != io.EOF {
 		return "", err
 	}
 
-	return string(lineInQuestion), nil
+	return strings.TrimSuffix(strings.TrimSuffix(lineInQuestion, "\n"), "\r"), nil
 }
-- 
2.43.0


From 367949c470473317abc4258bf8a4719b980e83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 11/36] fix: templates which failed to load, were removed, or
 got older were not reloaded

---
 render/html.go | 22 +++++++++++++++++++---
 render/text.go | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/render/html.go b/render/html.go
index 8c83a19..e68d8e5 100644
--- a/render/html.go
+++ b/render/html.go
@@ -112,7 +112,9 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+
+	shouldReload := len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -122,19 +124,33 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
 		return nil
 	}
 
+	prevTmpl := engine.tmpl
+
 	engine.resetTmpl()
 
+	err = engine.parseTemplates(templates)
+	if err != nil {
+		engine.tmpl = prevTmpl
+		return err
+	}
+
+	engine.tmplModTimes = modTimes
+
+	return nil
+}
+
+func (engine *HTMLEngine) parseTemplates(templates []string) error {
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
 		if err != nil {
diff --git a/render/text.go b/render/text.go
index 04a1f0c..415180e 100644
--- a/render/text.go
+++ b/render/text.go
@@ -104,7 +104,9 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+
+	shouldReload := len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -114,19 +116,33 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
 		return nil
 	}
 
+	prevTmpl := engine.tmpl
+
 	engine.resetTmpl()
 
+	err = engine.parseTemplates(templates)
+	if err != nil {
+		engine.tmpl = prevTmpl
+		return err
+	}
+
+	engine.tmplModTimes = modTimes
+
+	return nil
+}
+
+func (engine *TextEngine) parseTemplates(templates []string) error {
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
 		if err != nil {
-- 
2.43.0


From ba3c372cdd3fafe29cbc389470e8bb801161b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 12/36] fix: a file replaced by one with an older modification
 time was not reloaded

---
 load/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index 315da94..4d1411e 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -76,7 +76,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 	})
 
 	var node ast.Node
-	if found && !modTime.After(parsed.ModTime) {
+	if found && modTime.Equal(parsed.ModTime) {
 		log.Debug("already parsed section")
 		node = parsed.Node
 	} else {
-- 
2.43.0


From 76bc6c07f43a01f4f3d7c599c82d7d8ecdd84aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 13/36] fix: the source file was not closed when it failed to
 parse

---
 load/processor.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/load/processor.go b/load/processor.go
index 4d1411e..a9ba8ec 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -87,6 +87,8 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 			return nil, err
 		}
 
+		defer file.Close()
+
 		result, err := ast.ParseReader(path, file)
 		if err != nil {
 			astErr, ok := ast.UnpackError(err)
@@ -104,11 +106,6 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 			}
 		}
 
-		err = file.Close()
-		if err != nil {
-			return nil, err
-		}
-
 		node = result.(ast.Node)
 	}
 
-- 
2.43.0


From 87fc1b4f4480af9a2f8378df31f926df1d179262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 14/36] fix: tags in partials were collected in random order

---
 stages/collect.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 05708e2..6ea04de 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -1,6 +1,10 @@
 package stages
 
-import "github.com/vito/booklit"
+import (
+	"sort"
+
+	"github.com/vito/booklit"
+)
 
 // Collect is a booklit.Visitor that collects all tag targets and sets them on
 // the section.
@@ -67,11 +71,9 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 		return err
 	}
 
-	for _, p := range con.Partials {
-		err = p.Visit(collect)
-		if err != nil {
-			return err
-		}
+	err = collect.visitPartials(con.Partials)
+	if err != nil {
+		return err
 	}
 
 	for _, child := range con.Children {
@@ -100,7 +102,21 @@ func (collect *Collect) VisitStyled(con booklit.Styled) error {
 		return err
 	}
 
-	for _, v := range con.Partials {
+	return collect.visitPartials(con.Partials)
+}
+
+// visitPartials visits each partial in order of name, so that tags are
+// collected in the same order every time.
+func (collect *Collect) visitPartials(partials booklit.Partials) error {
+	names := []string{}
+	for name := range partials {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		v := partials[name]
 		if v == nil {
 			continue
 		}
-- 
2.43.0


From 08bb1550593128ff1284a5ade95d05b0643e6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 15/36] fix: the text engine required a page template for
 styled sections

---
 render/text.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/render/text.go b/render/text.go
index 415180e..04192ac 100644
--- a/render/text.go
+++ b/render/text.go
@@ -176,14 +176,23 @@ func (engine *TextEngine) URL(tag booklit.Tag) string {
 // If the section has Style set and a template named (Style)-page.tmpl exists
 // it will be used instead.
 func (engine *TextEngine) RenderSection(out io.Writer, con *booklit.Section) error {
-	tmpl := "page"
+	engine.data = con
+
+	try := []string{}
+
 	if con.Style != "" {
-		tmpl = con.Style + "-page"
+		try = append(try, con.Style+"-page")
 	}
 
-	engine.data = con
+	try = append(try, "page")
 
-	err := engine.setTmpl(tmpl)
+	var err error
+	for _, tmpl := range try {
+		err = engine.setTmpl(tmpl)
+		if err == nil {
+			break
+		}
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From eccee695fbd0ed976c3c4a98d26ba1819b1b4aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 16/36] fix: a target within the content of a reference could
 not be referenced

---
 stages/collect.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 6ea04de..3e843ec 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -53,9 +53,13 @@ func (collect *Collect) VisitPreformatted(con booklit.Preformatted) error {
 	return nil
 }
 
-// VisitReference does nothing.
+// VisitReference visits the reference's content, if any.
 func (collect *Collect) VisitReference(con *booklit.Reference) error {
-	return nil
+	if con.Content == nil {
+		return nil
+	}
+
+	return con.Content.Visit(collect)
 }
 
 // VisitSection visits the section's title, body, and partials, followed by
-- 
2.43.0


From 7dc3123bc331de7eb11a167da77ba4a8b913b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 17/36] fix: a section including itself crashed with a stack
 overflow

---
 baselit/plugin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index fd0386e..d9428cc 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -82,6 +82,12 @@ func (plugin Plugin) Section(node ast.Node) error {
 func (plugin Plugin) IncludeSection(path string) error {
 	sectionPath := filepath.Join(filepath.Dir(plugin.section.FilePath()), path)
 
+	for ancestor := plugin.section; ancestor != nil; ancestor = ancestor.Parent {
+		if ancestor.Path != "" && filepath.Clean(ancestor.Path) == sectionPath {
+			return fmt.Errorf("section includes itself: %s", sectionPath)
+		}
+	}
+
 	section, err := plugin.section.Processor.EvaluateFile(plugin.section, sectionPath, []booklit.PluginFactory{NewPlugin})
 	if err != nil {
 		return err
-- 
2.43.0


From 384c9340a63c5da3f6982964b178e2305791c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 18/36] fix: aux content directly within styles, links, etc.
 was not stripped

---
 aux_.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/aux_.go b/aux_.go
index b37440b..da53703 100644
--- a/aux_.go
+++ b/aux_.go
@@ -50,7 +50,7 @@ func (strip *stripAuxVisitor) VisitPreformatted(con Preformatted) error {
 
 func (strip *stripAuxVisitor) VisitReference(con *Reference) error {
 	ref := *con
-	ref.Content = StripAux(ref.Content)
+	ref.Content = stripAuxNested(ref.Content)
 	strip.Result = &ref
 	return nil
 }
@@ -66,7 +66,7 @@ func (strip *stripAuxVisitor) VisitTableOfContents(con TableOfContents) error {
 }
 
 func (strip *stripAuxVisitor) VisitStyled(con Styled) error {
-	con.Content = StripAux(con.Content)
+	con.Content = stripAuxNested(con.Content)
 
 	strippedPartials := Partials{}
 	for k, v := range con.Partials {
@@ -74,7 +74,7 @@ func (strip *stripAuxVisitor) VisitStyled(con Styled) error {
 			continue
 		}
 
-		strippedPartials[k] = StripAux(v)
+		strippedPartials[k] = stripAuxNested(v)
 	}
 
 	con.Partials = strippedPartials
@@ -84,8 +84,8 @@ func (strip *stripAuxVisitor) VisitStyled(con Styled) error {
 }
 
 func (strip *stripAuxVisitor) VisitTarget(con Target) error {
-	con.Title = StripAux(con.Title)
-	con.Content = StripAux(con.Content)
+	con.Title = stripAuxNested(con.Title)
+	con.Content = stripAuxNested(con.Content)
 	strip.Result = con
 	return nil
 }
@@ -102,7 +102,7 @@ func (strip *stripAuxVisitor) VisitList(con List) error {
 }
 
 func (strip *stripAuxVisitor) VisitLink(con Link) error {
-	con.Content = StripAux(con.Content)
+	con.Content = stripAuxNested(con.Content)
 	strip.Result = con
 	return nil
 }
@@ -121,8 +121,8 @@ func (strip *stripAuxVisitor) VisitDefinitions(con Definitions) error {
 	stripped := Definitions{}
 	for _, def := range con {
 		stripped = append(stripped, Definition{
-			Subject:    StripAux(def.Subject),
-			Definition: StripAux(def.Definition),
+			Subject:    stripAuxNested(def.Subject),
+			Definition: stripAuxNested(def.Definition),
 		})
 	}
 
@@ -146,3 +146,13 @@ func stripAuxSeq(seq []Content) []Content {
 
 	return stripped
 }
+
+// stripAuxNested strips content nested in other content; there is nothing left
+// of it if it is Aux itself.
+func stripAuxNested(content Content) Content {
+	if _, isAux := content.(Aux); isAux {
+		return Empty
+	}
+
+	return StripAux(content)
+}
-- 
2.43.0


From eddb0c10f96febef5f42203d73373ffffa286748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 19/36] fix: URLs of tags with special characters were broken

---
 render/common.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/render/common.go b/render/common.go
index 4af1648..d4cdbb9 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,10 @@
 package render
 
-import "github.com/vito/booklit"
+import (
+	"net/url"
+
+	"github.com/vito/booklit"
+)
 
 // WalkContext is a utility type constructed via the walkContext template
 // function.
@@ -32,11 +36,12 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 		return sectionURL(ext, owner, anchor)
 	}
 
-	filename := section.PrimaryTag.Name + "." + ext
-
-	if anchor != "" {
-		filename += "#" + anchor
+	// escape characters with a special meaning in URLs (e.g. a tag named
+	// "foo?", "foo#bar", or "foo:bar")
+	loc := url.URL{
+		Path:     section.PrimaryTag.Name + "." + ext,
+		Fragment: anchor,
 	}
 
-	return filename
+	return loc.String()
 }
-- 
2.43.0


From cce647747fecf50e1e5e8d988ab866876ffdbb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 20/36] fix: the text engine glued the section title to the
 section body

---
 render/text/bindata.go   | 32 ++++++++++++++++----------------
 render/text/section.tmpl |  2 +-
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/render/text/bindata.go b/render/text/bindata.go
index cf0bd0a..562bd95 100644
--- a/render/text/bindata.go
+++ b/render/text/bindata.go
@@ -84,7 +84,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _renderTextInsetTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x52\x50\x50\x50\xa8\xae\xd6\x73\xce\xcf\x2b\x49\xcd\x2b\x51\xa8\x51\x28\x4a\xcd\x4b\x49\x2d\x52\xa8\x51\xc8\xca\xcf\xcc\xf3\xc9\xcc\x4b\x2d\x56\x50\x02\x29\x52\xaa\xad\xe5\x02\x04\x00\x00\xff\xff\xa4\xfc\x3d\x4d\x2d\x00\x00\x00")
+var _renderTextInsetTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x00\x2d\x00\xd2\xff\x20\x20\x20\x20\x7b\x7b\x2e\x43\x6f\x6e\x74\x65\x6e\x74\x20\x7c\x20\x72\x65\x6e\x64\x65\x72\x20\x7c\x20\x6a\x6f\x69\x6e\x4c\x69\x6e\x65\x73\x20\x22\x20\x20\x20\x20\x22\x7d\x7d\x0a\x03\x00\xa4\xfc\x3d\x4d\x2d\x00\x00\x00")
 
 func renderTextInsetTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -99,12 +99,12 @@ func renderTextInsetTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/inset.tmpl", size: 45, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/inset.tmpl", size: 45, mode: os.FileMode(436), modTime: time.Unix(1713547031, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
 
-var _renderTextPageTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xaa\xae\xd6\x0b\xc9\x2c\xc9\x49\xd5\x0b\x2e\x29\xca\xcc\x4b\xaf\xad\xe5\xe2\xaa\xae\xd6\x53\xa8\x51\x28\x4a\xcd\x4b\x49\x2d\xaa\xad\x05\x04\x00\x00\xff\xff\xa4\xfc\x1e\xc9\x21\x00\x00\x00")
+var _renderTextPageTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x00\x21\x00\xde\xff\x7b\x7b\x2e\x54\x69\x74\x6c\x65\x2e\x53\x74\x72\x69\x6e\x67\x7d\x7d\x0a\x0a\x7b\x7b\x2e\x20\x7c\x20\x72\x65\x6e\x64\x65\x72\x7d\x7d\x03\x00\xa4\xfc\x1e\xc9\x21\x00\x00\x00")
 
 func renderTextPageTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -119,12 +119,12 @@ func renderTextPageTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/page.tmpl", size: 33, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/page.tmpl", size: 33, mode: os.FileMode(436), modTime: time.Unix(1713547031, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
 
-var _renderTextParagraphTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xaa\xae\x2e\x4a\xcc\x4b\x4f\x55\x50\xc9\xcc\x4b\x49\xad\xd0\x51\x50\xc9\xc9\xcc\x4b\x55\xb0\xb2\x55\xd0\xab\xad\xad\xae\xce\x4c\x83\x4a\xd4\xd6\x2a\x54\x57\xa7\xe6\xa5\x80\x04\x21\x4a\x6a\x14\x8a\x52\xf3\x52\x52\x8b\x40\x22\x60\x09\x2e\xae\xea\x6a\x25\xa5\xda\x5a\x2e\x40\x00\x00\x00\xff\xff\xc7\xb4\x03\x1c\x53\x00\x00\x00")
+var _renderTextParagraphTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x00\x53\x00\xac\xff\x7b\x7b\x72\x61\x6e\x67\x65\x20\x24\x69\x6e\x64\x65\x78\x2c\x20\x24\x6c\x69\x6e\x65\x20\x3a\x3d\x20\x2e\x7d\x7d\x7b\x7b\x69\x66\x20\x24\x69\x6e\x64\x65\x78\x7d\x7d\x20\x7b\x7b\x65\x6e\x64\x7d\x7d\x7b\x7b\x24\x6c\x69\x6e\x65\x20\x7c\x20\x72\x65\x6e\x64\x65\x72\x7d\x7d\x7b\x7b\x65\x6e\x64\x7d\x7d\x0a\x0a\x7b\x7b\x22\x22\x7d\x7d\x0a\x03\x00\xc7\xb4\x03\x1c\x53\x00\x00\x00")
 
 func renderTextParagraphTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -139,12 +139,12 @@ func renderTextParagraphTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/paragraph.tmpl", size: 83, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/paragraph.tmpl", size: 83, mode: os.FileMode(436), modTime: time.Unix(1713547031, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
 
-var _renderTextPreformattedTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xaa\xae\x2e\x4a\xcc\x4b\x4f\x55\x50\xc9\xcc\x4b\x49\xad\xd0\x51\x50\xc9\xc9\xcc\x4b\x55\xb0\xb2\x55\xd0\xab\xad\xad\xae\xce\x4c\x83\x4a\xd4\xd6\x72\x55\x57\xa7\xe6\xa5\x80\x04\x21\x4a\x6a\x14\x8a\x52\xf3\x52\x52\x8b\x40\x22\x60\x09\x2e\x40\x00\x00\x00\xff\xff\x41\x45\x7e\xd9\x4b\x00\x00\x00")
+var _renderTextPreformattedTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x00\x4b\x00\xb4\xff\x7b\x7b\x72\x61\x6e\x67\x65\x20\x24\x69\x6e\x64\x65\x78\x2c\x20\x24\x6c\x69\x6e\x65\x20\x3a\x3d\x20\x2e\x7d\x7d\x7b\x7b\x69\x66\x20\x24\x69\x6e\x64\x65\x78\x7d\x7d\x0a\x7b\x7b\x65\x6e\x64\x7d\x7d\x7b\x7b\x24\x6c\x69\x6e\x65\x20\x7c\x20\x72\x65\x6e\x64\x65\x72\x7d\x7d\x7b\x7b\x65\x6e\x64\x7d\x7d\x0a\x03\x00\x41\x45\x7e\xd9\x4b\x00\x00\x00")
 
 func renderTextPreformattedTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -159,12 +159,12 @@ func renderTextPreformattedTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/preformatted.tmpl", size: 75, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/preformatted.tmpl", size: 75, mode: os.FileMode(436), modTime: time.Unix(1713547031, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
 
-var _renderTextSectionTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x4c\xcd\xc1\x09\x02\x41\x0c\x85\xe1\xfb\x54\x91\x06\x4c\x11\x7a\x17\x61\x6d\x60\x75\xb2\x1a\x18\x33\x12\xe3\x41\x9e\xe9\x5d\x58\x65\xf0\xf4\xe0\x83\xc7\x0f\xe8\x42\x7c\x98\x5d\x2c\x32\x01\xde\x3f\x6f\x27\xf1\x4c\x02\xc4\xea\x4a\x47\x8d\x26\xf4\x26\x17\xab\xe2\xb4\xc9\x2c\x05\xe0\x6d\xaf\xaf\xa1\x5f\xd3\x85\xac\x07\xf1\x74\x6f\x1a\x93\x9c\x43\xbb\x3d\x32\x0b\xe0\xb3\x5d\x84\x78\x77\xd5\x56\x5d\x6c\x35\xfe\x7f\xff\x72\x63\x3f\x01\x00\x00\xff\xff\x34\xbb\x8c\x55\x99\x00\x00\x00")
+var _renderTextSectionTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x5c\xcd\xc1\x09\x02\x41\x0c\x85\xe1\xfb\x54\x91\x0a\x52\x84\xde\x45\x58\x1b\x58\x4d\x56\x03\x63\x46\x62\x3c\xc8\x33\xbd\x8b\x8b\x07\xf1\xfa\x3d\x1e\x3f\x60\x0b\xf1\x7e\x0e\xf5\xac\x02\x78\xf7\xb8\x1e\x35\xaa\x08\x50\x97\x95\x0e\x96\x5d\xe9\x45\xa1\x2e\x9f\xa9\x35\x80\x37\x43\x9e\x7f\x66\x0b\xf9\x48\xe2\xe9\xd6\x2d\x27\x3d\xa5\x0d\xbf\x57\x35\x20\x66\x3f\x2b\xf1\xf6\x62\x5d\x42\x7d\x35\xfe\x7d\x7f\x63\x0d\x50\x97\xaa\xf6\x1e\x00\xcc\xc5\xfe\x5c\x97\x00\x00\x00")
 
 func renderTextSectionTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -179,12 +179,12 @@ func renderTextSectionTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/section.tmpl", size: 153, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/section.tmpl", size: 151, mode: os.FileMode(436), modTime: time.Unix(1795109114, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
 
-var _renderTextSequenceTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xaa\xae\x2e\x4a\xcc\x4b\x4f\x55\xd0\x73\xce\xcf\x2b\x49\xcd\x2b\x29\xae\xad\xad\xae\xd6\x53\xa8\x51\x28\x4a\xcd\x4b\x49\x2d\x02\xf1\x52\xf3\x52\x6a\x6b\xb9\x00\x01\x00\x00\xff\xff\xfc\xbe\x50\x06\x29\x00\x00\x00")
+var _renderTextSequenceTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x00\x29\x00\xd6\xff\x7b\x7b\x72\x61\x6e\x67\x65\x20\x2e\x43\x6f\x6e\x74\x65\x6e\x74\x73\x7d\x7d\x7b\x7b\x2e\x20\x7c\x20\x72\x65\x6e\x64\x65\x72\x7d\x7d\x7b\x7b\x65\x6e\x64\x7d\x7d\x0a\x03\x00\xfc\xbe\x50\x06\x29\x00\x00\x00")
 
 func renderTextSequenceTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -199,12 +199,12 @@ func renderTextSequenceTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/sequence.tmpl", size: 41, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/sequence.tmpl", size: 41, mode: os.FileMode(436), modTime: time.Unix(1713547031, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
 
-var _renderTextStringTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xaa\xae\xd6\x0b\x2e\x29\xca\xcc\x4b\xaf\xad\xe5\x02\x04\x00\x00\xff\xff\x38\x6b\xcd\x33\x0c\x00\x00\x00")
+var _renderTextStringTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x00\x0c\x00\xf3\xff\x7b\x7b\x2e\x53\x74\x72\x69\x6e\x67\x7d\x7d\x0a\x03\x00\x38\x6b\xcd\x33\x0c\x00\x00\x00")
 
 func renderTextStringTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -219,12 +219,12 @@ func renderTextStringTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/string.tmpl", size: 12, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/string.tmpl", size: 12, mode: os.FileMode(436), modTime: time.Unix(1713547031, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
 
-var _renderTextTocTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x4c\xcc\xc1\x0a\xc2\x30\x10\x04\xd0\x7b\xbf\x62\xe8\x49\x2f\xf9\x07\x29\x78\xb4\x97\xfe\x40\x6a\xb6\x1a\x48\x36\x61\xbb\x05\x61\x9b\x7f\x17\x0b\xa2\xa7\x81\x37\xcc\x98\xc5\x05\x9e\x03\xdc\xf0\x8c\x29\x08\x31\x4e\x5c\x14\x6e\xcc\x51\xbf\x74\x95\x92\x27\x3f\x27\x1a\x97\xa1\xb0\x12\xeb\x7a\x6e\xad\x33\x13\xcf\x0f\xfa\x4d\x0f\x73\xb7\x2d\xcf\x24\xad\xc1\xcc\x4d\x51\x13\x61\xc7\xaa\x12\xeb\x65\x7b\x61\x87\x10\x87\x4f\xdd\x75\x66\x4a\xb9\x26\xaf\x84\x5e\xcb\xdd\x69\xae\xa9\x87\x3b\x5e\x88\xc3\x5f\xbe\x03\x00\x00\xff\xff\xb5\x34\x2d\x4c\xa6\x00\x00\x00")
+var _renderTextTocTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x44\xcc\x31\xaa\xc3\x30\x0c\xc6\xf1\xdd\xa7\x10\x99\xde\x5b\x74\x87\x12\xe8\xd8\x2c\xb9\x80\x53\x2b\xad\xc1\x96\x8d\xa2\x40\x41\xd1\xdd\x4b\x03\xa5\xeb\xef\xe3\xfb\x9b\xe5\x15\x22\x27\xc0\xf1\x99\x4b\x12\x62\xf8\xe3\xa6\x80\x53\xcd\xfa\xa5\xab\xb4\x3a\xc7\xa5\xd0\xb4\x8e\x8d\x95\x58\xb7\x7f\xf7\x60\x26\x91\x1f\xf4\xbb\x9e\x86\xb7\xbd\x2e\x24\xee\x60\x86\x73\xd6\x42\x70\xc0\xa6\x92\xfb\x65\x7f\xc1\x01\x42\x9c\x3e\x73\x08\x66\x4a\xb5\x97\xa8\x04\x83\xb6\x3b\x6a\xed\x65\x00\x3c\x2b\xc4\xc9\x3d\x98\x11\x27\xf7\xf0\x1e\x00\xb5\x34\x2d\x4c\xa6\x00\x00\x00")
 
 func renderTextTocTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -239,7 +239,7 @@ func renderTextTocTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "render/text/toc.tmpl", size: 166, mode: os.FileMode(420), modTime: time.Unix(1607886945, 0)}
+	info := bindataFileInfo{name: "render/text/toc.tmpl", size: 166, mode: os.FileMode(436), modTime: time.Unix(1713547031, 0)}
 	a := &asset{bytes: bytes, info: info}
 	return a, nil
 }
diff --git a/render/text/section.tmpl b/render/text/section.tmpl
index bc8c0fc..4422fbf 100644
--- a/render/text/section.tmpl
+++ b/render/text/section.tmpl
@@ -1,4 +1,4 @@
-{{if .Parent}}{{.Number}} {{end}}{{.Title | render -}}
+{{if .Parent}}{{.Number}} {{end}}{{.Title | render}}
 
 {{.Body | render}}
 
-- 
2.43.0


From 12e0341993e1285fbae09a934f2f7d78a9e5a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:51 +0000
Subject: [PATCH 21/36] fix: a reference displaying itself crashed with a stack
 overflow

---
 reference.go     | 10 ++++++++++
 render/common.go | 28 ++++++++++++++++++++++++++++
 render/html.go   | 10 ++++++++++
 render/text.go   | 10 ++++++++++
 4 files changed, 58 insertions(+)

diff --git a/reference.go b/reference.go
index b026c3e..451df2a 100644
--- a/reference.go
+++ b/reference.go
@@ -34,6 +34,9 @@ type Reference struct {
 
 	// The result of Resolving the reference.
 	tag *Tag
+
+	// Set while summarizing the tag's title, which may contain the reference.
+	summarizing bool
 }
 
 // IsFlow returns true.
@@ -52,6 +55,13 @@ func (con *Reference) String() string {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
 
+	if con.summarizing {
+		return ""
+	}
+
+	con.summarizing = true
+	defer func() { con.summarizing = false }()
+
 	return tag.Title.String()
 }
 
diff --git a/render/common.go b/render/common.go
index d4cdbb9..0b086fa 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,7 @@
 package render
 
 import (
+	"fmt"
 	"net/url"
 
 	"github.com/vito/booklit"
@@ -45,3 +46,30 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 
 	return loc.String()
 }
+
+// displaying keeps track of the references whose display is currently being
+// rendered, so that a reference which displays itself (e.g. by being part of
+// the title that it refers to) can be detected.
+type displaying map[displayed]bool
+
+type displayed struct {
+	section *booklit.Section
+	tagName string
+}
+
+// enter must be called before rendering data. The returned function must be
+// called afterwards.
+func (active displaying) enter(data interface{}) (func(), error) {
+	ref, ok := data.(*booklit.Reference)
+	if !ok || ref.Content != nil {
+		return func() {}, nil
+	}
+
+	key := displayed{ref.Section, ref.TagName}
+	if active[key] {
+		return nil, fmt.Errorf("reference to tag '%s' displays itself", ref.TagName)
+	}
+
+	active[key] = true
+	return func() { delete(active, key) }, nil
+}
diff --git a/render/html.go b/render/html.go
index e68d8e5..9249da9 100644
--- a/render/html.go
+++ b/render/html.go
@@ -84,6 +84,8 @@ type HTMLEngine struct {
 
 	template *template.Template
 	data     interface{}
+
+	displaying displaying
 }
 
 // NewHTMLEngine constructs a new HTMLEngine with the basic set of HTML
@@ -91,6 +93,7 @@ type HTMLEngine struct {
 func NewHTMLEngine() *HTMLEngine {
 	engine := &HTMLEngine{
 		tmplModTimes: map[string]time.Time{},
+		displaying:   displaying{},
 	}
 
 	engine.resetTmpl()
@@ -340,6 +343,13 @@ func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, err
 		return "", err
 	}
 
+	leave, err := engine.displaying.enter(subEngine.data)
+	if err != nil {
+		return "", err
+	}
+
+	defer leave()
+
 	err = subEngine.render(buf)
 	if err != nil {
 		return "", err
diff --git a/render/text.go b/render/text.go
index 04192ac..eae8577 100644
--- a/render/text.go
+++ b/render/text.go
@@ -69,6 +69,8 @@ type TextEngine struct {
 
 	template *template.Template
 	data     interface{}
+
+	displaying displaying
 }
 
 // NewTextEngine constructs a new TextEngine with the basic set of text
@@ -80,6 +82,7 @@ func NewTextEngine(fileExtension string) *TextEngine {
 		fileExtension: fileExtension,
 
 		tmplModTimes: map[string]time.Time{},
+		displaying:   displaying{},
 	}
 
 	engine.resetTmpl()
@@ -333,6 +336,13 @@ func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
 		return "", err
 	}
 
+	leave, err := engine.displaying.enter(subEngine.data)
+	if err != nil {
+		return "", err
+	}
+
+	defer leave()
+
 	err = subEngine.render(buf)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 9fe1e882c8bfaaab4ac45794b442232456ff99b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:27 +0000
Subject: [PATCH 22/36] fix: a table of contents with an untitled section
 failed

---
 load/processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index a9ba8ec..09eb71b 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -158,6 +158,9 @@ func (processor *Processor) EvaluateNode(parent *booklit.Section, node ast.Node,
 }
 
 func (processor *Processor) evaluateSection(section *booklit.Section, node ast.Node, pluginFactories []booklit.PluginFactory) error {
+	// until the section has a title, links to it lead to its page
+	section.PrimaryTag.Section = section
+
 	for _, pf := range pluginFactories {
 		section.UsePlugin(pf)
 	}
-- 
2.43.0


From 6f456879604a6e6f1d7ccdc7bbe4d9b7596072cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 23/36] fix: an error at the end of a line was reported on the
 line following it

---
 load/processor.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index 09eb71b..6815122 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -4,9 +4,12 @@
 package load
 
 import (
+	"bytes"
+	"io/ioutil"
 	"os"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -89,13 +92,27 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 
 		defer file.Close()
 
-		result, err := ast.ParseReader(path, file)
+		source, err := ioutil.ReadAll(file)
+		if err != nil {
+			return nil, err
+		}
+
+		result, err := ast.Parse(path, source)
 		if err != nil {
 			astErr, ok := ast.UnpackError(err)
 			if !ok {
 				return nil, err
 			}
 
+			if astErr.Location.Col == 0 {
+				// the parser counts a line break as part of the line following it
+				head := source[:astErr.Location.Offset]
+				line := head[bytes.LastIndexByte(head, '\n')+1:]
+
+				astErr.Location.Line--
+				astErr.Location.Col = utf8.RuneCount(line) + 1
+			}
+
 			return nil, booklit.ParseError{
 				Err: astErr.Inner,
 				ErrorLocation: booklit.ErrorLocation{
-- 
2.43.0


From 9e4697e95e12fb4517054d9960323e81d99d1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 24/36] fix: links to anchors with a colon were broken

---
 render/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/common.go b/render/common.go
index 0b086fa..325a40c 100644
--- a/render/common.go
+++ b/render/common.go
@@ -3,6 +3,7 @@ package render
 import (
 	"fmt"
 	"net/url"
+	"strings"
 
 	"github.com/vito/booklit"
 )
@@ -44,6 +45,9 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 		Fragment: anchor,
 	}
 
+	// what precedes a colon would be mistaken for a protocol
+	loc.RawFragment = strings.ReplaceAll(loc.EscapedFragment(), ":", "%3A")
+
 	return loc.String()
 }
 
-- 
2.43.0


From 1465f31a43fba4246ad237d2ca854ddf5c959faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:25 +0000
Subject: [PATCH 25/36] fix: a target within aux content of a reference, which
 is not shown, was collected

---
 stages/collect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 3e843ec..645419d 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -53,13 +53,13 @@ func (collect *Collect) VisitPreformatted(con booklit.Preformatted) error {
 	return nil
 }
 
-// VisitReference visits the reference's content, if any.
+// VisitReference visits the reference's content, if any, as far as it is shown.
 func (collect *Collect) VisitReference(con *booklit.Reference) error {
 	if con.Content == nil {
 		return nil
 	}
 
-	return con.Content.Visit(collect)
+	return booklit.StripAux(con.Content).Visit(collect)
 }
 
 // VisitSection visits the section's title, body, and partials, followed by
-- 
2.43.0


From aa13e5b425d69e65b78a344b8971192130c95755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 26/36] fix: a blank template did not replace the built-in one
 of its name

---
 render/common.go | 23 +++++++++++++++++++++++
 render/html.go   |  4 ++--
 render/text.go   |  4 ++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/render/common.go b/render/common.go
index 325a40c..b3b54e9 100644
--- a/render/common.go
+++ b/render/common.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"net/url"
 	"strings"
+	"text/template/parse"
 
 	"github.com/vito/booklit"
 )
@@ -15,6 +16,28 @@ type WalkContext struct {
 	Section *booklit.Section
 }
 
+// templateText returns the text of a template file, ready to be parsed.
+func templateText(name string, content []byte) string {
+	text := strings.TrimRight(string(content), "\n")
+
+	parser := parse.New(name)
+	parser.Mode = parse.SkipFuncCheck
+
+	defined := map[string]*parse.Tree{}
+
+	_, err := parser.Parse(text, "", "", defined)
+	if err != nil || len(defined) != 1 {
+		return text
+	}
+
+	if tree := defined[name]; tree != nil && parse.IsEmptyTree(tree.Root) {
+		// a template which is blank would not replace an existing one
+		text += `{{""}}`
+	}
+
+	return text
+}
+
 func sectionPageOwner(section *booklit.Section) *booklit.Section {
 	if section.Parent == nil {
 		return section
diff --git a/render/html.go b/render/html.go
index 9249da9..f29486f 100644
--- a/render/html.go
+++ b/render/html.go
@@ -160,9 +160,9 @@ func (engine *HTMLEngine) parseTemplates(templates []string) error {
 			return err
 		}
 
-		trimmed := strings.TrimRight(string(content), "\n")
+		name := filepath.Base(path)
 
-		_, err = engine.tmpl.New(filepath.Base(path)).Parse(trimmed)
+		_, err = engine.tmpl.New(name).Parse(templateText(name, content))
 		if err != nil {
 			return err
 		}
diff --git a/render/text.go b/render/text.go
index eae8577..501fe7c 100644
--- a/render/text.go
+++ b/render/text.go
@@ -152,9 +152,9 @@ func (engine *TextEngine) parseTemplates(templates []string) error {
 			return err
 		}
 
-		trimmed := strings.TrimRight(string(content), "\n")
+		name := filepath.Base(path)
 
-		_, err = engine.tmpl.New(filepath.Base(path)).Parse(trimmed)
+		_, err = engine.tmpl.New(name).Parse(templateText(name, content))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d110525d69c33bbcb343beef001b27e9d0762b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 27/36] fix: no error page could be shown once the file in
 error had changed

---
 errors.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/errors.go b/errors.go
index 62d3e8c..0091fb2 100644
--- a/errors.go
+++ b/errors.go
@@ -370,6 +370,10 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 
 	line, err := loc.lineInQuestion()
 	if err != nil {
+		// the file may have changed since
+		_, err := io.WriteString(out, `<pre class="raw-error">`+
+			template.HTMLEscapeString(loc.Annotate("%s", err))+
+			`</pre>`)
 		return err
 	}
 
-- 
2.43.0


From bd0d8540a359b3d196fe7e92208689b9b983efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 28/36] fix: a file replaced while it was loaded could stay
 outdated in the cache

---
 load/processor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index 6815122..274370a 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -92,6 +92,14 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 
 		defer file.Close()
 
+		// the file may have been replaced in the meantime
+		info, err := file.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		modTime = info.ModTime()
+
 		source, err := ioutil.ReadAll(file)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 901f22df0d657ee8ce9309a2b068ba24fd0e69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 29/36] fix: templates replaced while they were loaded could
 stay outdated

---
 render/common.go | 26 ++++++++++++++++++++++++++
 render/html.go   | 10 ++++++----
 render/text.go   | 10 ++++++----
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/render/common.go b/render/common.go
index b3b54e9..24b0307 100644
--- a/render/common.go
+++ b/render/common.go
@@ -2,9 +2,12 @@ package render
 
 import (
 	"fmt"
+	"io/ioutil"
 	"net/url"
+	"os"
 	"strings"
 	"text/template/parse"
+	"time"
 
 	"github.com/vito/booklit"
 )
@@ -16,6 +19,29 @@ type WalkContext struct {
 	Section *booklit.Section
 }
 
+// readTemplate returns the content of a template file along with the
+// modification time of just that content.
+func readTemplate(path string) ([]byte, time.Time, error) {
+	file, err := os.Open(path)
+	if err != nil {
+		return nil, time.Time{}, err
+	}
+
+	defer file.Close()
+
+	info, err := file.Stat()
+	if err != nil {
+		return nil, time.Time{}, err
+	}
+
+	content, err := ioutil.ReadAll(file)
+	if err != nil {
+		return nil, time.Time{}, err
+	}
+
+	return content, info.ModTime(), nil
+}
+
 // templateText returns the text of a template file, ready to be parsed.
 func templateText(name string, content []byte) string {
 	text := strings.TrimRight(string(content), "\n")
diff --git a/render/html.go b/render/html.go
index f29486f..5cc16ed 100644
--- a/render/html.go
+++ b/render/html.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"html/template"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -142,7 +141,7 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 
 	engine.resetTmpl()
 
-	err = engine.parseTemplates(templates)
+	err = engine.parseTemplates(templates, modTimes)
 	if err != nil {
 		engine.tmpl = prevTmpl
 		return err
@@ -153,13 +152,16 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	return nil
 }
 
-func (engine *HTMLEngine) parseTemplates(templates []string) error {
+func (engine *HTMLEngine) parseTemplates(templates []string, modTimes map[string]time.Time) error {
 	for _, path := range templates {
-		content, err := ioutil.ReadFile(path)
+		content, modTime, err := readTemplate(path)
 		if err != nil {
 			return err
 		}
 
+		// the file may have been replaced in the meantime
+		modTimes[path] = modTime
+
 		name := filepath.Base(path)
 
 		_, err = engine.tmpl.New(name).Parse(templateText(name, content))
diff --git a/render/text.go b/render/text.go
index 501fe7c..3a1df36 100644
--- a/render/text.go
+++ b/render/text.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -134,7 +133,7 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 
 	engine.resetTmpl()
 
-	err = engine.parseTemplates(templates)
+	err = engine.parseTemplates(templates, modTimes)
 	if err != nil {
 		engine.tmpl = prevTmpl
 		return err
@@ -145,13 +144,16 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	return nil
 }
 
-func (engine *TextEngine) parseTemplates(templates []string) error {
+func (engine *TextEngine) parseTemplates(templates []string, modTimes map[string]time.Time) error {
 	for _, path := range templates {
-		content, err := ioutil.ReadFile(path)
+		content, modTime, err := readTemplate(path)
 		if err != nil {
 			return err
 		}
 
+		// the file may have been replaced in the meantime
+		modTimes[path] = modTime
+
 		name := filepath.Base(path)
 
 		_, err = engine.tmpl.New(name).Parse(templateText(name, content))
-- 
2.43.0


From 043e004334a81eae98cc6c073a4d166a0c6b2fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 30/36] fix: a template removed while the templates were loaded
 made the request fail

---
 render/common.go | 13 +++++++++++++
 render/html.go   | 10 ++++++++++
 render/text.go   | 10 ++++++++++
 3 files changed, 33 insertions(+)

diff --git a/render/common.go b/render/common.go
index 24b0307..1396293 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,7 @@
 package render
 
 import (
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/url"
@@ -42,6 +43,18 @@ func readTemplate(path string) ([]byte, time.Time, error) {
 	return content, info.ModTime(), nil
 }
 
+// removedFile reports whether err says that a listed file does not exist
+// because it was removed since, rather than for being a dangling link.
+func removedFile(err error) bool {
+	var pathErr *os.PathError
+	if !os.IsNotExist(err) || !errors.As(err, &pathErr) {
+		return false
+	}
+
+	info, err := os.Lstat(pathErr.Path)
+	return err != nil || info.Mode()&os.ModeSymlink == 0
+}
+
 // templateText returns the text of a template file, ready to be parsed.
 func templateText(name string, content []byte) string {
 	text := strings.TrimRight(string(content), "\n")
diff --git a/render/html.go b/render/html.go
index 5cc16ed..79d7931 100644
--- a/render/html.go
+++ b/render/html.go
@@ -119,6 +119,10 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	shouldReload := len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
+		if removedFile(err) {
+			// removed since it was listed; list them again
+			return engine.LoadTemplates(templatesDir)
+		}
 		if err != nil {
 			return err
 		}
@@ -144,6 +148,12 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	err = engine.parseTemplates(templates, modTimes)
 	if err != nil {
 		engine.tmpl = prevTmpl
+
+		if removedFile(err) {
+			// removed since it was listed; list them again
+			return engine.LoadTemplates(templatesDir)
+		}
+
 		return err
 	}
 
diff --git a/render/text.go b/render/text.go
index 3a1df36..f3898f7 100644
--- a/render/text.go
+++ b/render/text.go
@@ -111,6 +111,10 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	shouldReload := len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
+		if removedFile(err) {
+			// removed since it was listed; list them again
+			return engine.LoadTemplates(templatesDir)
+		}
 		if err != nil {
 			return err
 		}
@@ -136,6 +140,12 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	err = engine.parseTemplates(templates, modTimes)
 	if err != nil {
 		engine.tmpl = prevTmpl
+
+		if removedFile(err) {
+			// removed since it was listed; list them again
+			return engine.LoadTemplates(templatesDir)
+		}
+
 		return err
 	}
 
-- 
2.43.0


From ff4c26140e74cf52ac844aba885473a483ed9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 31/36] fix: aux content within deferred content was not
 stripped

---
 aux_.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aux_.go b/aux_.go
index da53703..66e55c3 100644
--- a/aux_.go
+++ b/aux_.go
@@ -131,7 +131,18 @@ func (strip *stripAuxVisitor) VisitDefinitions(con Definitions) error {
 }
 
 func (strip *stripAuxVisitor) VisitLazy(con *Lazy) error {
-	strip.Result = con
+	stripped := LazyFlow(func() (Content, error) {
+		content, err := con.Force()
+		if err != nil {
+			return nil, err
+		}
+
+		return stripAuxNested(content), nil
+	})
+
+	stripped.Block = con.Block
+
+	strip.Result = stripped
 	return nil
 }
 
-- 
2.43.0


From 62053cc135579d2ec448db8c6c3c6e45454d82c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 32/36] fix: deferred content which is nil could not be
 rendered

---
 lazy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy.go b/lazy.go
index 497bcdb..ca66e42 100644
--- a/lazy.go
+++ b/lazy.go
@@ -47,10 +47,14 @@ func (lazy *Lazy) Visit(visitor Visitor) error {
 	return visitor.VisitLazy(lazy)
 }
 
-// Force generates the deferred content if needed and returns it.
+// Force generates the deferred content if needed and returns it. If there is
+// none it returns Empty.
 func (lazy *Lazy) Force() (Content, error) {
 	lazy.once.Do(func() {
 		lazy.result, lazy.err = lazy.fn()
+		if lazy.result == nil && lazy.err == nil {
+			lazy.result = Empty
+		}
 	})
 
 	return lazy.result, lazy.err
-- 
2.43.0


From f837de3f0e877034e0443c2646235cf9be72e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 33/36] fix: temporary files were left behind when a run with
 plugins was interrupted

---
 booklitcmd/command.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/booklitcmd/command.go b/booklitcmd/command.go
index 684a3f1..fcf9d18 100644
--- a/booklitcmd/command.go
+++ b/booklitcmd/command.go
@@ -7,8 +7,10 @@ import (
 	_ "net/http/pprof"
 	"os"
 	"os/exec"
+	"os/signal"
 	"path/filepath"
 	"runtime/pprof"
+	"syscall"
 	"time"
 
 	"github.com/sirupsen/logrus"
@@ -203,6 +205,11 @@ func (cmd *Command) Build() error {
 }
 
 func (cmd *Command) reexec() (int, error) {
+	// when interrupted, stay until the temporary files are removed
+	signals := make(chan os.Signal, 1)
+	signal.Notify(signals, os.Interrupt, syscall.SIGTERM)
+	defer signal.Stop(signals)
+
 	tmpdir, err := os.MkdirTemp("", "booklit-reexec")
 	if err != nil {
 		return 0, err
@@ -236,7 +243,7 @@ func (cmd *Command) reexec() (int, error) {
 
 	logrus.Debug("building reexec binary")
 
-	err = build.Run()
+	err = runForwarding(build, signals)
 	if err != nil {
 		return 0, fmt.Errorf("build failed: %w", err)
 	}
@@ -248,7 +255,7 @@ func (cmd *Command) reexec() (int, error) {
 
 	logrus.Debug("reexecing")
 
-	err = run.Run()
+	err = runForwarding(run, signals)
 	if err != nil {
 		if exitErr, ok := err.(*exec.ExitError); ok {
 			return exitErr.ExitCode(), nil
@@ -259,3 +266,27 @@ func (cmd *Command) reexec() (int, error) {
 
 	return 0, nil
 }
+
+// runForwarding runs the command, passing on signals to it.
+func runForwarding(run *exec.Cmd, signals <-chan os.Signal) error {
+	err := run.Start()
+	if err != nil {
+		return err
+	}
+
+	done := make(chan struct{})
+	defer close(done)
+
+	go func() {
+		for {
+			select {
+			case sig := <-signals:
+				_ = run.Process.Signal(sig)
+			case <-done:
+				return
+			}
+		}
+	}()
+
+	return run.Wait()
+}
-- 
2.43.0


From 5fbf6afda58395bfc182352ad3ebce567fd370db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 34/36] fix: code which a lexer does not reproduce is shown
 without highlighting

---
 chroma/plugin.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/chroma/plugin.go b/chroma/plugin.go
index 328951e..8f466ce 100644
--- a/chroma/plugin.go
+++ b/chroma/plugin.go
@@ -21,6 +21,7 @@ package chroma
 import (
 	"bytes"
 	"regexp"
+	"strings"
 
 	"github.com/alecthomas/chroma"
 	"github.com/alecthomas/chroma/formatters/html"
@@ -81,7 +82,7 @@ func (plugin Plugin) SyntaxTransform(language string, code booklit.Content, chro
 		lexer = lexers.Fallback
 	}
 
-	iterator, err := lexer.Tokenise(nil, code.String())
+	tokens, err := tokenise(lexer, code.String())
 	if err != nil {
 		return nil, err
 	}
@@ -89,7 +90,7 @@ func (plugin Plugin) SyntaxTransform(language string, code booklit.Content, chro
 	formatter := html.New(html.PreventSurroundingPre(code.IsFlow()))
 
 	buf := new(bytes.Buffer)
-	err = formatter.Format(buf, chromaStyle, iterator)
+	err = formatter.Format(buf, chromaStyle, chroma.Literator(tokens...))
 	if err != nil {
 		return nil, err
 	}
@@ -135,3 +136,25 @@ func (plugin Plugin) SyntaxTransform(language string, code booklit.Content, chro
 		},
 	}, nil
 }
+
+// tokenise splits the code into tokens. Some lexers drop or repeat part of the
+// code they are given, in which case it is not highlighted instead.
+func tokenise(lexer chroma.Lexer, code string) ([]chroma.Token, error) {
+	tokens, err := chroma.Tokenise(lexer, nil, code)
+	if err != nil {
+		return nil, err
+	}
+
+	if plainText(chroma.Stringify(tokens...)) != plainText(code) {
+		return chroma.Tokenise(lexers.Fallback, nil, code)
+	}
+
+	return tokens, nil
+}
+
+// plainText normalizes line endings, as lexers do.
+func plainText(code string) string {
+	code = strings.ReplaceAll(code, "\r\n", "\n")
+	code = strings.ReplaceAll(code, "\r", "\n")
+	return strings.TrimSuffix(code, "\n")
+}
-- 
2.43.0


From 44fe080ab5d47301ddaba15b5d0a9d427513ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 35/36] fix: comments which are not closed take time
 exponential in their number

---
 ast/booklit.peg    |   4 +-
 ast/booklit.peg.go | 365 +++++++++++++++++++++++++--------------------
 2 files changed, 203 insertions(+), 166 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index 3150318..cbddf73 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -76,7 +76,9 @@ Word <- Comment* val:(String / Invoke / Interpolated) Comment* {
   return val, nil
 }
 
-Comment <- [ \t]* "{-" (Comment / !"-}" .)* "-}"
+Comment <- [ \t]* NestedComment
+
+NestedComment <- "{-" (NestedComment / !("{-" !'}') !"-}" .)* "-}"
 
 Interpolated <- '{' word:Word? '}' {
   if word == nil {
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index 0705574..7ec02c3 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -321,35 +321,71 @@ var g = &grammar{
 							inverted:   false,
 						},
 					},
+					&ruleRefExpr{
+						pos:  position{line: 79, col: 19, offset: 1644},
+						name: "NestedComment",
+					},
+				},
+			},
+		},
+		{
+			name: "NestedComment",
+			pos:  position{line: 81, col: 1, offset: 1659},
+			expr: &seqExpr{
+				pos: position{line: 81, col: 18, offset: 1676},
+				exprs: []interface{}{
 					&litMatcher{
-						pos:        position{line: 79, col: 19, offset: 1644},
+						pos:        position{line: 81, col: 18, offset: 1676},
 						val:        "{-",
 						ignoreCase: false,
 						want:       "\"{-\"",
 					},
 					&zeroOrMoreExpr{
-						pos: position{line: 79, col: 24, offset: 1649},
+						pos: position{line: 81, col: 23, offset: 1681},
 						expr: &choiceExpr{
-							pos: position{line: 79, col: 25, offset: 1650},
+							pos: position{line: 81, col: 24, offset: 1682},
 							alternatives: []interface{}{
 								&ruleRefExpr{
-									pos:  position{line: 79, col: 25, offset: 1650},
-									name: "Comment",
+									pos:  position{line: 81, col: 24, offset: 1682},
+									name: "NestedComment",
 								},
 								&seqExpr{
-									pos: position{line: 79, col: 35, offset: 1660},
+									pos: position{line: 81, col: 40, offset: 1698},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 79, col: 35, offset: 1660},
+											pos: position{line: 81, col: 40, offset: 1698},
+											expr: &seqExpr{
+												pos: position{line: 81, col: 42, offset: 1700},
+												exprs: []interface{}{
+													&litMatcher{
+														pos:        position{line: 81, col: 42, offset: 1700},
+														val:        "{-",
+														ignoreCase: false,
+														want:       "\"{-\"",
+													},
+													&notExpr{
+														pos: position{line: 81, col: 47, offset: 1705},
+														expr: &litMatcher{
+															pos:        position{line: 81, col: 48, offset: 1706},
+															val:        "}",
+															ignoreCase: false,
+															want:       "\"}\"",
+														},
+													},
+												},
+											},
+										},
+										&notExpr{
+											pos: position{line: 81, col: 53, offset: 1711},
 											expr: &litMatcher{
-												pos:        position{line: 79, col: 36, offset: 1661},
+												pos:        position{line: 81, col: 54, offset: 1712},
 												val:        "-}",
 												ignoreCase: false,
 												want:       "\"-}\"",
 											},
 										},
 										&anyMatcher{
-											line: 79, col: 41, offset: 1666,
+											line: 81, col: 59, offset: 1717,
 										},
 									},
 								},
@@ -357,7 +393,7 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 79, col: 45, offset: 1670},
+						pos:        position{line: 81, col: 63, offset: 1721},
 						val:        "-}",
 						ignoreCase: false,
 						want:       "\"-}\"",
@@ -367,32 +403,32 @@ var g = &grammar{
 		},
 		{
 			name: "Interpolated",
-			pos:  position{line: 81, col: 1, offset: 1676},
+			pos:  position{line: 83, col: 1, offset: 1727},
 			expr: &actionExpr{
-				pos: position{line: 81, col: 17, offset: 1692},
+				pos: position{line: 83, col: 17, offset: 1743},
 				run: (*parser).callonInterpolated1,
 				expr: &seqExpr{
-					pos: position{line: 81, col: 17, offset: 1692},
+					pos: position{line: 83, col: 17, offset: 1743},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 81, col: 17, offset: 1692},
+							pos:        position{line: 83, col: 17, offset: 1743},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 81, col: 21, offset: 1696},
+							pos:   position{line: 83, col: 21, offset: 1747},
 							label: "word",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 81, col: 26, offset: 1701},
+								pos: position{line: 83, col: 26, offset: 1752},
 								expr: &ruleRefExpr{
-									pos:  position{line: 81, col: 26, offset: 1701},
+									pos:  position{line: 83, col: 26, offset: 1752},
 									name: "Word",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 81, col: 32, offset: 1707},
+							pos:        position{line: 83, col: 32, offset: 1758},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -403,35 +439,35 @@ var g = &grammar{
 		},
 		{
 			name: "WrappedLine",
-			pos:  position{line: 89, col: 1, offset: 1798},
+			pos:  position{line: 91, col: 1, offset: 1849},
 			expr: &actionExpr{
-				pos: position{line: 89, col: 16, offset: 1813},
+				pos: position{line: 91, col: 16, offset: 1864},
 				run: (*parser).callonWrappedLine1,
 				expr: &seqExpr{
-					pos: position{line: 89, col: 16, offset: 1813},
+					pos: position{line: 91, col: 16, offset: 1864},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 89, col: 16, offset: 1813},
+							pos:   position{line: 91, col: 16, offset: 1864},
 							label: "firstWord",
 							expr: &ruleRefExpr{
-								pos:  position{line: 89, col: 26, offset: 1823},
+								pos:  position{line: 91, col: 26, offset: 1874},
 								name: "Word",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 89, col: 31, offset: 1828},
+							pos:   position{line: 91, col: 31, offset: 1879},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 89, col: 37, offset: 1834},
+								pos: position{line: 91, col: 37, offset: 1885},
 								expr: &choiceExpr{
-									pos: position{line: 89, col: 38, offset: 1835},
+									pos: position{line: 91, col: 38, offset: 1886},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 89, col: 38, offset: 1835},
+											pos:  position{line: 91, col: 38, offset: 1886},
 											name: "Word",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 89, col: 45, offset: 1842},
+											pos:  position{line: 91, col: 45, offset: 1893},
 											name: "Split",
 										},
 									},
@@ -444,21 +480,21 @@ var g = &grammar{
 		},
 		{
 			name: "Split",
-			pos:  position{line: 94, col: 1, offset: 1973},
+			pos:  position{line: 96, col: 1, offset: 2024},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 10, offset: 1982},
+				pos: position{line: 96, col: 10, offset: 2033},
 				run: (*parser).callonSplit1,
 				expr: &seqExpr{
-					pos: position{line: 94, col: 10, offset: 1982},
+					pos: position{line: 96, col: 10, offset: 2033},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 94, col: 10, offset: 1982},
+							pos:  position{line: 96, col: 10, offset: 2033},
 							name: "LineBreak",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 94, col: 20, offset: 1992},
+							pos: position{line: 96, col: 20, offset: 2043},
 							expr: &charClassMatcher{
-								pos:        position{line: 94, col: 20, offset: 1992},
+								pos:        position{line: 96, col: 20, offset: 2043},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -471,20 +507,20 @@ var g = &grammar{
 		},
 		{
 			name: "String",
-			pos:  position{line: 96, col: 1, offset: 2028},
+			pos:  position{line: 98, col: 1, offset: 2079},
 			expr: &choiceExpr{
-				pos: position{line: 96, col: 11, offset: 2038},
+				pos: position{line: 98, col: 11, offset: 2089},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 96, col: 11, offset: 2038},
+						pos: position{line: 98, col: 11, offset: 2089},
 						run: (*parser).callonString2,
 						expr: &labeledExpr{
-							pos:   position{line: 96, col: 11, offset: 2038},
+							pos:   position{line: 98, col: 11, offset: 2089},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 96, col: 15, offset: 2042},
+								pos: position{line: 98, col: 15, offset: 2093},
 								expr: &charClassMatcher{
-									pos:        position{line: 96, col: 15, offset: 2042},
+									pos:        position{line: 98, col: 15, offset: 2093},
 									val:        "[^\\\\{}\\r\\n]",
 									chars:      []rune{'\\', '{', '}', '\r', '\n'},
 									ignoreCase: false,
@@ -494,19 +530,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 96, col: 61, offset: 2088},
+						pos: position{line: 98, col: 61, offset: 2139},
 						run: (*parser).callonString6,
 						expr: &seqExpr{
-							pos: position{line: 96, col: 61, offset: 2088},
+							pos: position{line: 98, col: 61, offset: 2139},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 96, col: 61, offset: 2088},
+									pos:        position{line: 98, col: 61, offset: 2139},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&charClassMatcher{
-									pos:        position{line: 96, col: 66, offset: 2093},
+									pos:        position{line: 98, col: 66, offset: 2144},
 									val:        "[\\\\{}]",
 									chars:      []rune{'\\', '{', '}'},
 									ignoreCase: false,
@@ -520,20 +556,20 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimString",
-			pos:  position{line: 98, col: 1, offset: 2136},
+			pos:  position{line: 100, col: 1, offset: 2187},
 			expr: &choiceExpr{
-				pos: position{line: 98, col: 19, offset: 2154},
+				pos: position{line: 100, col: 19, offset: 2205},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 98, col: 19, offset: 2154},
+						pos: position{line: 100, col: 19, offset: 2205},
 						run: (*parser).callonVerbatimString2,
 						expr: &labeledExpr{
-							pos:   position{line: 98, col: 19, offset: 2154},
+							pos:   position{line: 100, col: 19, offset: 2205},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 98, col: 23, offset: 2158},
+								pos: position{line: 100, col: 23, offset: 2209},
 								expr: &charClassMatcher{
-									pos:        position{line: 98, col: 23, offset: 2158},
+									pos:        position{line: 100, col: 23, offset: 2209},
 									val:        "[^\\r\\n}]",
 									chars:      []rune{'\r', '\n', '}'},
 									ignoreCase: false,
@@ -543,21 +579,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 100, col: 5, offset: 2203},
+						pos: position{line: 102, col: 5, offset: 2254},
 						run: (*parser).callonVerbatimString6,
 						expr: &seqExpr{
-							pos: position{line: 100, col: 5, offset: 2203},
+							pos: position{line: 102, col: 5, offset: 2254},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 100, col: 5, offset: 2203},
+									pos:        position{line: 102, col: 5, offset: 2254},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
 								},
 								&notExpr{
-									pos: position{line: 100, col: 9, offset: 2207},
+									pos: position{line: 102, col: 9, offset: 2258},
 									expr: &litMatcher{
-										pos:        position{line: 100, col: 10, offset: 2208},
+										pos:        position{line: 102, col: 10, offset: 2259},
 										val:        "}}",
 										ignoreCase: false,
 										want:       "\"}}\"",
@@ -571,34 +607,34 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlockLine",
-			pos:  position{line: 104, col: 1, offset: 2247},
+			pos:  position{line: 106, col: 1, offset: 2298},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 26, offset: 2272},
+				pos: position{line: 106, col: 26, offset: 2323},
 				run: (*parser).callonPreformattedBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 26, offset: 2272},
+					pos: position{line: 106, col: 26, offset: 2323},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 104, col: 26, offset: 2272},
+							pos:   position{line: 106, col: 26, offset: 2323},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 104, col: 33, offset: 2279},
+								pos:  position{line: 106, col: 33, offset: 2330},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 104, col: 40, offset: 2286},
+							pos:   position{line: 106, col: 40, offset: 2337},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 104, col: 46, offset: 2292},
+								pos: position{line: 106, col: 46, offset: 2343},
 								expr: &ruleRefExpr{
-									pos:  position{line: 104, col: 46, offset: 2292},
+									pos:  position{line: 106, col: 46, offset: 2343},
 									name: "Word",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 104, col: 52, offset: 2298},
+							pos:  position{line: 106, col: 52, offset: 2349},
 							name: "LineBreak",
 						},
 					},
@@ -607,32 +643,32 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 110, col: 1, offset: 2420},
+			pos:  position{line: 112, col: 1, offset: 2471},
 			expr: &actionExpr{
-				pos: position{line: 110, col: 22, offset: 2441},
+				pos: position{line: 112, col: 22, offset: 2492},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 110, col: 22, offset: 2441},
+					pos: position{line: 112, col: 22, offset: 2492},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 110, col: 22, offset: 2441},
+							pos:  position{line: 112, col: 22, offset: 2492},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 110, col: 32, offset: 2451},
+							pos:   position{line: 112, col: 32, offset: 2502},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 110, col: 38, offset: 2457},
+								pos: position{line: 112, col: 38, offset: 2508},
 								expr: &ruleRefExpr{
-									pos:  position{line: 110, col: 38, offset: 2457},
+									pos:  position{line: 112, col: 38, offset: 2508},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 110, col: 61, offset: 2480},
+							pos: position{line: 112, col: 61, offset: 2531},
 							expr: &charClassMatcher{
-								pos:        position{line: 110, col: 61, offset: 2480},
+								pos:        position{line: 112, col: 61, offset: 2531},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -645,17 +681,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 114, col: 1, offset: 2538},
+			pos:  position{line: 116, col: 1, offset: 2589},
 			expr: &actionExpr{
-				pos: position{line: 114, col: 17, offset: 2554},
+				pos: position{line: 116, col: 17, offset: 2605},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 114, col: 17, offset: 2554},
+					pos:   position{line: 116, col: 17, offset: 2605},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 114, col: 23, offset: 2560},
+						pos: position{line: 116, col: 23, offset: 2611},
 						expr: &ruleRefExpr{
-							pos:  position{line: 114, col: 23, offset: 2560},
+							pos:  position{line: 116, col: 23, offset: 2611},
 							name: "VerbatimString",
 						},
 					},
@@ -664,34 +700,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 118, col: 1, offset: 2623},
+			pos:  position{line: 120, col: 1, offset: 2674},
 			expr: &actionExpr{
-				pos: position{line: 118, col: 22, offset: 2644},
+				pos: position{line: 120, col: 22, offset: 2695},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 118, col: 22, offset: 2644},
+					pos: position{line: 120, col: 22, offset: 2695},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 118, col: 22, offset: 2644},
+							pos:   position{line: 120, col: 22, offset: 2695},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 118, col: 29, offset: 2651},
+								pos:  position{line: 120, col: 29, offset: 2702},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 118, col: 36, offset: 2658},
+							pos:   position{line: 120, col: 36, offset: 2709},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 118, col: 42, offset: 2664},
+								pos: position{line: 120, col: 42, offset: 2715},
 								expr: &ruleRefExpr{
-									pos:  position{line: 118, col: 42, offset: 2664},
+									pos:  position{line: 120, col: 42, offset: 2715},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 118, col: 58, offset: 2680},
+							pos:  position{line: 120, col: 58, offset: 2731},
 							name: "LineBreak",
 						},
 					},
@@ -700,32 +736,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 124, col: 1, offset: 2802},
+			pos:  position{line: 126, col: 1, offset: 2853},
 			expr: &actionExpr{
-				pos: position{line: 124, col: 18, offset: 2819},
+				pos: position{line: 126, col: 18, offset: 2870},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 124, col: 18, offset: 2819},
+					pos: position{line: 126, col: 18, offset: 2870},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 124, col: 18, offset: 2819},
+							pos:  position{line: 126, col: 18, offset: 2870},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 124, col: 28, offset: 2829},
+							pos:   position{line: 126, col: 28, offset: 2880},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 124, col: 34, offset: 2835},
+								pos: position{line: 126, col: 34, offset: 2886},
 								expr: &ruleRefExpr{
-									pos:  position{line: 124, col: 34, offset: 2835},
+									pos:  position{line: 126, col: 34, offset: 2886},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 124, col: 53, offset: 2854},
+							pos: position{line: 126, col: 53, offset: 2905},
 							expr: &charClassMatcher{
-								pos:        position{line: 124, col: 53, offset: 2854},
+								pos:        position{line: 126, col: 53, offset: 2905},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -738,26 +774,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 128, col: 1, offset: 2912},
+			pos:  position{line: 130, col: 1, offset: 2963},
 			expr: &actionExpr{
-				pos: position{line: 128, col: 11, offset: 2922},
+				pos: position{line: 130, col: 11, offset: 2973},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 128, col: 11, offset: 2922},
+					pos: position{line: 130, col: 11, offset: 2973},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 128, col: 11, offset: 2922},
+							pos:        position{line: 130, col: 11, offset: 2973},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 128, col: 16, offset: 2927},
+							pos:   position{line: 130, col: 16, offset: 2978},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 128, col: 22, offset: 2933},
+								pos: position{line: 130, col: 22, offset: 2984},
 								expr: &charClassMatcher{
-									pos:        position{line: 128, col: 22, offset: 2933},
+									pos:        position{line: 130, col: 22, offset: 2984},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -767,12 +803,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 128, col: 31, offset: 2942},
+							pos:   position{line: 130, col: 31, offset: 2993},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 128, col: 37, offset: 2948},
+								pos: position{line: 130, col: 37, offset: 2999},
 								expr: &ruleRefExpr{
-									pos:  position{line: 128, col: 37, offset: 2948},
+									pos:  position{line: 130, col: 37, offset: 2999},
 									name: "Argument",
 								},
 							},
@@ -783,38 +819,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 141, col: 1, offset: 3164},
+			pos:  position{line: 143, col: 1, offset: 3215},
 			expr: &actionExpr{
-				pos: position{line: 141, col: 16, offset: 3179},
+				pos: position{line: 143, col: 16, offset: 3230},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 141, col: 16, offset: 3179},
+					pos: position{line: 143, col: 16, offset: 3230},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 141, col: 16, offset: 3179},
+							pos:        position{line: 143, col: 16, offset: 3230},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 141, col: 22, offset: 3185},
+							pos:   position{line: 143, col: 22, offset: 3236},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 141, col: 28, offset: 3191},
+								pos: position{line: 143, col: 28, offset: 3242},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 141, col: 28, offset: 3191},
+										pos:  position{line: 143, col: 28, offset: 3242},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 141, col: 44, offset: 3207},
+										pos:  position{line: 143, col: 44, offset: 3258},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 141, col: 58, offset: 3221},
+							pos:        position{line: 143, col: 58, offset: 3272},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -825,29 +861,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 145, col: 1, offset: 3251},
+			pos:  position{line: 147, col: 1, offset: 3302},
 			expr: &actionExpr{
-				pos: position{line: 145, col: 20, offset: 3270},
+				pos: position{line: 147, col: 20, offset: 3321},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 145, col: 20, offset: 3270},
+					pos: position{line: 147, col: 20, offset: 3321},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 145, col: 20, offset: 3270},
+							pos:        position{line: 147, col: 20, offset: 3321},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 145, col: 25, offset: 3275},
+							pos:   position{line: 147, col: 25, offset: 3326},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 145, col: 30, offset: 3280},
+								pos:  position{line: 147, col: 30, offset: 3331},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 145, col: 48, offset: 3298},
+							pos:        position{line: 147, col: 48, offset: 3349},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -858,14 +894,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 149, col: 1, offset: 3327},
+			pos:  position{line: 151, col: 1, offset: 3378},
 			expr: &actionExpr{
-				pos: position{line: 149, col: 13, offset: 3339},
+				pos: position{line: 151, col: 13, offset: 3390},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 149, col: 13, offset: 3339},
+					pos: position{line: 151, col: 13, offset: 3390},
 					expr: &ruleRefExpr{
-						pos:  position{line: 149, col: 13, offset: 3339},
+						pos:  position{line: 151, col: 13, offset: 3390},
 						name: "CommentSpacing",
 					},
 				},
@@ -873,37 +909,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 151, col: 1, offset: 3376},
+			pos:  position{line: 153, col: 1, offset: 3427},
 			expr: &actionExpr{
-				pos: position{line: 151, col: 8, offset: 3383},
+				pos: position{line: 153, col: 8, offset: 3434},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 151, col: 8, offset: 3383},
+					pos: position{line: 153, col: 8, offset: 3434},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 151, col: 8, offset: 3383},
+							pos:        position{line: 153, col: 8, offset: 3434},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 151, col: 12, offset: 3387},
+							pos:   position{line: 153, col: 12, offset: 3438},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 151, col: 17, offset: 3392},
+								pos: position{line: 153, col: 17, offset: 3443},
 								expr: &choiceExpr{
-									pos: position{line: 151, col: 18, offset: 3393},
+									pos: position{line: 153, col: 18, offset: 3444},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 151, col: 18, offset: 3393},
+											pos:  position{line: 153, col: 18, offset: 3444},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 151, col: 32, offset: 3407},
+											pos:  position{line: 153, col: 32, offset: 3458},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 151, col: 42, offset: 3417},
+											pos:  position{line: 153, col: 42, offset: 3468},
 											name: "EmptyArg",
 										},
 									},
@@ -911,7 +947,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 151, col: 53, offset: 3428},
+							pos:        position{line: 153, col: 53, offset: 3479},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -922,25 +958,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 159, col: 1, offset: 3519},
+			pos:  position{line: 161, col: 1, offset: 3570},
 			expr: &actionExpr{
-				pos: position{line: 159, col: 12, offset: 3530},
+				pos: position{line: 161, col: 12, offset: 3581},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 159, col: 12, offset: 3530},
+					pos: position{line: 161, col: 12, offset: 3581},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 159, col: 12, offset: 3530},
+							pos:   position{line: 161, col: 12, offset: 3581},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 159, col: 18, offset: 3536},
+								pos:  position{line: 161, col: 18, offset: 3587},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 159, col: 29, offset: 3547},
+							pos: position{line: 161, col: 29, offset: 3598},
 							expr: &charClassMatcher{
-								pos:        position{line: 159, col: 29, offset: 3547},
+								pos:        position{line: 161, col: 29, offset: 3598},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -953,20 +989,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 163, col: 1, offset: 3579},
+			pos:  position{line: 165, col: 1, offset: 3630},
 			expr: &choiceExpr{
-				pos: position{line: 163, col: 13, offset: 3591},
+				pos: position{line: 165, col: 13, offset: 3642},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 163, col: 13, offset: 3591},
+						pos:  position{line: 165, col: 13, offset: 3642},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 163, col: 27, offset: 3605},
+						pos:  position{line: 165, col: 27, offset: 3656},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 163, col: 45, offset: 3623},
+						pos:  position{line: 165, col: 45, offset: 3674},
 						name: "Arg",
 					},
 				},
@@ -974,14 +1010,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 165, col: 1, offset: 3628},
+			pos:  position{line: 167, col: 1, offset: 3679},
 			expr: &actionExpr{
-				pos: position{line: 165, col: 11, offset: 3638},
+				pos: position{line: 167, col: 11, offset: 3689},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 165, col: 11, offset: 3638},
+					pos: position{line: 167, col: 11, offset: 3689},
 					expr: &charClassMatcher{
-						pos:        position{line: 165, col: 11, offset: 3638},
+						pos:        position{line: 167, col: 11, offset: 3689},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1333,18 +1369,17 @@ func Entrypoint(ruleName string) Option {
 //
 // Example usage:
 //
-//     input := "input"
-//     stats := Stats{}
-//     _, err := Parse("input-file", []byte(input), Statistics(&stats, "no match"))
-//     if err != nil {
-//         log.Panicln(err)
-//     }
-//     b, err := json.MarshalIndent(stats.ChoiceAltCnt, "", "  ")
-//     if err != nil {
-//         log.Panicln(err)
-//     }
-//     fmt.Println(string(b))
-//
+//	input := "input"
+//	stats := Stats{}
+//	_, err := Parse("input-file", []byte(input), Statistics(&stats, "no match"))
+//	if err != nil {
+//	    log.Panicln(err)
+//	}
+//	b, err := json.MarshalIndent(stats.ChoiceAltCnt, "", "  ")
+//	if err != nil {
+//	    log.Panicln(err)
+//	}
+//	fmt.Println(string(b))
 func Statistics(stats *Stats, choiceNoMatch string) Option {
 	return func(p *parser) Option {
 		oldStats := p.Stats
-- 
2.43.0


From 4a93fc5239fc876f03196c41aecc37f9c6e73356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 36/36] fix: a comment takes the spacing before the word which
 follows it

---
 ast/booklit.peg    |  11 +-
 ast/booklit.peg.go | 466 +++++++++++++++++++++++++++------------------
 2 files changed, 290 insertions(+), 187 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index cbddf73..92cb3ce 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -68,11 +68,11 @@ Paragraph <- lines:(l:Line LineBreak? { return l, nil })+ {
   return Paragraph(ifaceSequences(lines)), nil
 }
 
-Line <- [ \t]* words:(Word)+ {
+Line <- [ \t]* Comment* words:(Word)+ {
   return Sequence(ifaceNodes(words)), nil
 }
 
-Word <- Comment* val:(String / Invoke / Interpolated) Comment* {
+Word <- NestedComment* val:(String / Invoke / Interpolated) InlineComment* {
   return val, nil
 }
 
@@ -80,7 +80,10 @@ Comment <- [ \t]* NestedComment
 
 NestedComment <- "{-" (NestedComment / !("{-" !'}') !"-}" .)* "-}"
 
-Interpolated <- '{' word:Word? '}' {
+// the spacing before a comment belongs to it unless a word directly follows
+InlineComment <- NestedComment / [ \t]+ NestedComment+ &([ \t\r\n}] / !.)
+
+Interpolated <- '{' word:(Comment* w:Word { return w, nil })? '}' {
   if word == nil {
     return Sequence{}, nil
   } else {
@@ -88,7 +91,7 @@ Interpolated <- '{' word:Word? '}' {
   }
 }
 
-WrappedLine <- firstWord:Word words:(Word / Split)* {
+WrappedLine <- InlineComment* firstWord:Word words:(Word / Split)* {
   allWords := append([]interface{}{firstWord}, words.([]interface{})...)
   return Sequence(ifaceNodes(allWords)), nil
 }
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index 7ec02c3..b3c4c88 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -242,13 +242,20 @@ var g = &grammar{
 								inverted:   false,
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 71, col: 16, offset: 1479},
+							expr: &ruleRefExpr{
+								pos:  position{line: 71, col: 16, offset: 1479},
+								name: "Comment",
+							},
+						},
 						&labeledExpr{
-							pos:   position{line: 71, col: 16, offset: 1479},
+							pos:   position{line: 71, col: 25, offset: 1488},
 							label: "words",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 71, col: 22, offset: 1485},
+								pos: position{line: 71, col: 31, offset: 1494},
 								expr: &ruleRefExpr{
-									pos:  position{line: 71, col: 23, offset: 1486},
+									pos:  position{line: 71, col: 32, offset: 1495},
 									name: "Word",
 								},
 							},
@@ -259,46 +266,46 @@ var g = &grammar{
 		},
 		{
 			name: "Word",
-			pos:  position{line: 75, col: 1, offset: 1540},
+			pos:  position{line: 75, col: 1, offset: 1549},
 			expr: &actionExpr{
-				pos: position{line: 75, col: 9, offset: 1548},
+				pos: position{line: 75, col: 9, offset: 1557},
 				run: (*parser).callonWord1,
 				expr: &seqExpr{
-					pos: position{line: 75, col: 9, offset: 1548},
+					pos: position{line: 75, col: 9, offset: 1557},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 75, col: 9, offset: 1548},
+							pos: position{line: 75, col: 9, offset: 1557},
 							expr: &ruleRefExpr{
-								pos:  position{line: 75, col: 9, offset: 1548},
-								name: "Comment",
+								pos:  position{line: 75, col: 9, offset: 1557},
+								name: "NestedComment",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 75, col: 18, offset: 1557},
+							pos:   position{line: 75, col: 24, offset: 1572},
 							label: "val",
 							expr: &choiceExpr{
-								pos: position{line: 75, col: 23, offset: 1562},
+								pos: position{line: 75, col: 29, offset: 1577},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 75, col: 23, offset: 1562},
+										pos:  position{line: 75, col: 29, offset: 1577},
 										name: "String",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 75, col: 32, offset: 1571},
+										pos:  position{line: 75, col: 38, offset: 1586},
 										name: "Invoke",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 75, col: 41, offset: 1580},
+										pos:  position{line: 75, col: 47, offset: 1595},
 										name: "Interpolated",
 									},
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 75, col: 55, offset: 1594},
+							pos: position{line: 75, col: 61, offset: 1609},
 							expr: &ruleRefExpr{
-								pos:  position{line: 75, col: 55, offset: 1594},
-								name: "Comment",
+								pos:  position{line: 75, col: 61, offset: 1609},
+								name: "InlineComment",
 							},
 						},
 					},
@@ -307,14 +314,14 @@ var g = &grammar{
 		},
 		{
 			name: "Comment",
-			pos:  position{line: 79, col: 1, offset: 1626},
+			pos:  position{line: 79, col: 1, offset: 1647},
 			expr: &seqExpr{
-				pos: position{line: 79, col: 12, offset: 1637},
+				pos: position{line: 79, col: 12, offset: 1658},
 				exprs: []interface{}{
 					&zeroOrMoreExpr{
-						pos: position{line: 79, col: 12, offset: 1637},
+						pos: position{line: 79, col: 12, offset: 1658},
 						expr: &charClassMatcher{
-							pos:        position{line: 79, col: 12, offset: 1637},
+							pos:        position{line: 79, col: 12, offset: 1658},
 							val:        "[ \\t]",
 							chars:      []rune{' ', '\t'},
 							ignoreCase: false,
@@ -322,7 +329,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 79, col: 19, offset: 1644},
+						pos:  position{line: 79, col: 19, offset: 1665},
 						name: "NestedComment",
 					},
 				},
@@ -330,43 +337,43 @@ var g = &grammar{
 		},
 		{
 			name: "NestedComment",
-			pos:  position{line: 81, col: 1, offset: 1659},
+			pos:  position{line: 81, col: 1, offset: 1680},
 			expr: &seqExpr{
-				pos: position{line: 81, col: 18, offset: 1676},
+				pos: position{line: 81, col: 18, offset: 1697},
 				exprs: []interface{}{
 					&litMatcher{
-						pos:        position{line: 81, col: 18, offset: 1676},
+						pos:        position{line: 81, col: 18, offset: 1697},
 						val:        "{-",
 						ignoreCase: false,
 						want:       "\"{-\"",
 					},
 					&zeroOrMoreExpr{
-						pos: position{line: 81, col: 23, offset: 1681},
+						pos: position{line: 81, col: 23, offset: 1702},
 						expr: &choiceExpr{
-							pos: position{line: 81, col: 24, offset: 1682},
+							pos: position{line: 81, col: 24, offset: 1703},
 							alternatives: []interface{}{
 								&ruleRefExpr{
-									pos:  position{line: 81, col: 24, offset: 1682},
+									pos:  position{line: 81, col: 24, offset: 1703},
 									name: "NestedComment",
 								},
 								&seqExpr{
-									pos: position{line: 81, col: 40, offset: 1698},
+									pos: position{line: 81, col: 40, offset: 1719},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 81, col: 40, offset: 1698},
+											pos: position{line: 81, col: 40, offset: 1719},
 											expr: &seqExpr{
-												pos: position{line: 81, col: 42, offset: 1700},
+												pos: position{line: 81, col: 42, offset: 1721},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 81, col: 42, offset: 1700},
+														pos:        position{line: 81, col: 42, offset: 1721},
 														val:        "{-",
 														ignoreCase: false,
 														want:       "\"{-\"",
 													},
 													&notExpr{
-														pos: position{line: 81, col: 47, offset: 1705},
+														pos: position{line: 81, col: 47, offset: 1726},
 														expr: &litMatcher{
-															pos:        position{line: 81, col: 48, offset: 1706},
+															pos:        position{line: 81, col: 48, offset: 1727},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -376,16 +383,16 @@ var g = &grammar{
 											},
 										},
 										&notExpr{
-											pos: position{line: 81, col: 53, offset: 1711},
+											pos: position{line: 81, col: 53, offset: 1732},
 											expr: &litMatcher{
-												pos:        position{line: 81, col: 54, offset: 1712},
+												pos:        position{line: 81, col: 54, offset: 1733},
 												val:        "-}",
 												ignoreCase: false,
 												want:       "\"-}\"",
 											},
 										},
 										&anyMatcher{
-											line: 81, col: 59, offset: 1717,
+											line: 81, col: 59, offset: 1738,
 										},
 									},
 								},
@@ -393,7 +400,7 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 81, col: 63, offset: 1721},
+						pos:        position{line: 81, col: 63, offset: 1742},
 						val:        "-}",
 						ignoreCase: false,
 						want:       "\"-}\"",
@@ -401,34 +408,110 @@ var g = &grammar{
 				},
 			},
 		},
+		{
+			name: "InlineComment",
+			pos:  position{line: 84, col: 1, offset: 1825},
+			expr: &choiceExpr{
+				pos: position{line: 84, col: 18, offset: 1842},
+				alternatives: []interface{}{
+					&ruleRefExpr{
+						pos:  position{line: 84, col: 18, offset: 1842},
+						name: "NestedComment",
+					},
+					&seqExpr{
+						pos: position{line: 84, col: 34, offset: 1858},
+						exprs: []interface{}{
+							&oneOrMoreExpr{
+								pos: position{line: 84, col: 34, offset: 1858},
+								expr: &charClassMatcher{
+									pos:        position{line: 84, col: 34, offset: 1858},
+									val:        "[ \\t]",
+									chars:      []rune{' ', '\t'},
+									ignoreCase: false,
+									inverted:   false,
+								},
+							},
+							&oneOrMoreExpr{
+								pos: position{line: 84, col: 41, offset: 1865},
+								expr: &ruleRefExpr{
+									pos:  position{line: 84, col: 41, offset: 1865},
+									name: "NestedComment",
+								},
+							},
+							&andExpr{
+								pos: position{line: 84, col: 56, offset: 1880},
+								expr: &choiceExpr{
+									pos: position{line: 84, col: 58, offset: 1882},
+									alternatives: []interface{}{
+										&charClassMatcher{
+											pos:        position{line: 84, col: 58, offset: 1882},
+											val:        "[ \\t\\r\\n}]",
+											chars:      []rune{' ', '\t', '\r', '\n', '}'},
+											ignoreCase: false,
+											inverted:   false,
+										},
+										&notExpr{
+											pos: position{line: 84, col: 71, offset: 1895},
+											expr: &anyMatcher{
+												line: 84, col: 72, offset: 1896,
+											},
+										},
+									},
+								},
+							},
+						},
+					},
+				},
+			},
+		},
 		{
 			name: "Interpolated",
-			pos:  position{line: 83, col: 1, offset: 1727},
+			pos:  position{line: 86, col: 1, offset: 1900},
 			expr: &actionExpr{
-				pos: position{line: 83, col: 17, offset: 1743},
+				pos: position{line: 86, col: 17, offset: 1916},
 				run: (*parser).callonInterpolated1,
 				expr: &seqExpr{
-					pos: position{line: 83, col: 17, offset: 1743},
+					pos: position{line: 86, col: 17, offset: 1916},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 83, col: 17, offset: 1743},
+							pos:        position{line: 86, col: 17, offset: 1916},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 83, col: 21, offset: 1747},
+							pos:   position{line: 86, col: 21, offset: 1920},
 							label: "word",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 83, col: 26, offset: 1752},
-								expr: &ruleRefExpr{
-									pos:  position{line: 83, col: 26, offset: 1752},
-									name: "Word",
+								pos: position{line: 86, col: 26, offset: 1925},
+								expr: &actionExpr{
+									pos: position{line: 86, col: 27, offset: 1926},
+									run: (*parser).callonInterpolated6,
+									expr: &seqExpr{
+										pos: position{line: 86, col: 27, offset: 1926},
+										exprs: []interface{}{
+											&zeroOrMoreExpr{
+												pos: position{line: 86, col: 27, offset: 1926},
+												expr: &ruleRefExpr{
+													pos:  position{line: 86, col: 27, offset: 1926},
+													name: "Comment",
+												},
+											},
+											&labeledExpr{
+												pos:   position{line: 86, col: 36, offset: 1935},
+												label: "w",
+												expr: &ruleRefExpr{
+													pos:  position{line: 86, col: 38, offset: 1937},
+													name: "Word",
+												},
+											},
+										},
+									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 83, col: 32, offset: 1758},
+							pos:        position{line: 86, col: 63, offset: 1962},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -439,35 +522,42 @@ var g = &grammar{
 		},
 		{
 			name: "WrappedLine",
-			pos:  position{line: 91, col: 1, offset: 1849},
+			pos:  position{line: 94, col: 1, offset: 2053},
 			expr: &actionExpr{
-				pos: position{line: 91, col: 16, offset: 1864},
+				pos: position{line: 94, col: 16, offset: 2068},
 				run: (*parser).callonWrappedLine1,
 				expr: &seqExpr{
-					pos: position{line: 91, col: 16, offset: 1864},
+					pos: position{line: 94, col: 16, offset: 2068},
 					exprs: []interface{}{
+						&zeroOrMoreExpr{
+							pos: position{line: 94, col: 16, offset: 2068},
+							expr: &ruleRefExpr{
+								pos:  position{line: 94, col: 16, offset: 2068},
+								name: "InlineComment",
+							},
+						},
 						&labeledExpr{
-							pos:   position{line: 91, col: 16, offset: 1864},
+							pos:   position{line: 94, col: 31, offset: 2083},
 							label: "firstWord",
 							expr: &ruleRefExpr{
-								pos:  position{line: 91, col: 26, offset: 1874},
+								pos:  position{line: 94, col: 41, offset: 2093},
 								name: "Word",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 91, col: 31, offset: 1879},
+							pos:   position{line: 94, col: 46, offset: 2098},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 91, col: 37, offset: 1885},
+								pos: position{line: 94, col: 52, offset: 2104},
 								expr: &choiceExpr{
-									pos: position{line: 91, col: 38, offset: 1886},
+									pos: position{line: 94, col: 53, offset: 2105},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 91, col: 38, offset: 1886},
+											pos:  position{line: 94, col: 53, offset: 2105},
 											name: "Word",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 91, col: 45, offset: 1893},
+											pos:  position{line: 94, col: 60, offset: 2112},
 											name: "Split",
 										},
 									},
@@ -480,21 +570,21 @@ var g = &grammar{
 		},
 		{
 			name: "Split",
-			pos:  position{line: 96, col: 1, offset: 2024},
+			pos:  position{line: 99, col: 1, offset: 2243},
 			expr: &actionExpr{
-				pos: position{line: 96, col: 10, offset: 2033},
+				pos: position{line: 99, col: 10, offset: 2252},
 				run: (*parser).callonSplit1,
 				expr: &seqExpr{
-					pos: position{line: 96, col: 10, offset: 2033},
+					pos: position{line: 99, col: 10, offset: 2252},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 96, col: 10, offset: 2033},
+							pos:  position{line: 99, col: 10, offset: 2252},
 							name: "LineBreak",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 96, col: 20, offset: 2043},
+							pos: position{line: 99, col: 20, offset: 2262},
 							expr: &charClassMatcher{
-								pos:        position{line: 96, col: 20, offset: 2043},
+								pos:        position{line: 99, col: 20, offset: 2262},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -507,20 +597,20 @@ var g = &grammar{
 		},
 		{
 			name: "String",
-			pos:  position{line: 98, col: 1, offset: 2079},
+			pos:  position{line: 101, col: 1, offset: 2298},
 			expr: &choiceExpr{
-				pos: position{line: 98, col: 11, offset: 2089},
+				pos: position{line: 101, col: 11, offset: 2308},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 98, col: 11, offset: 2089},
+						pos: position{line: 101, col: 11, offset: 2308},
 						run: (*parser).callonString2,
 						expr: &labeledExpr{
-							pos:   position{line: 98, col: 11, offset: 2089},
+							pos:   position{line: 101, col: 11, offset: 2308},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 98, col: 15, offset: 2093},
+								pos: position{line: 101, col: 15, offset: 2312},
 								expr: &charClassMatcher{
-									pos:        position{line: 98, col: 15, offset: 2093},
+									pos:        position{line: 101, col: 15, offset: 2312},
 									val:        "[^\\\\{}\\r\\n]",
 									chars:      []rune{'\\', '{', '}', '\r', '\n'},
 									ignoreCase: false,
@@ -530,19 +620,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 98, col: 61, offset: 2139},
+						pos: position{line: 101, col: 61, offset: 2358},
 						run: (*parser).callonString6,
 						expr: &seqExpr{
-							pos: position{line: 98, col: 61, offset: 2139},
+							pos: position{line: 101, col: 61, offset: 2358},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 98, col: 61, offset: 2139},
+									pos:        position{line: 101, col: 61, offset: 2358},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&charClassMatcher{
-									pos:        position{line: 98, col: 66, offset: 2144},
+									pos:        position{line: 101, col: 66, offset: 2363},
 									val:        "[\\\\{}]",
 									chars:      []rune{'\\', '{', '}'},
 									ignoreCase: false,
@@ -556,20 +646,20 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimString",
-			pos:  position{line: 100, col: 1, offset: 2187},
+			pos:  position{line: 103, col: 1, offset: 2406},
 			expr: &choiceExpr{
-				pos: position{line: 100, col: 19, offset: 2205},
+				pos: position{line: 103, col: 19, offset: 2424},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 100, col: 19, offset: 2205},
+						pos: position{line: 103, col: 19, offset: 2424},
 						run: (*parser).callonVerbatimString2,
 						expr: &labeledExpr{
-							pos:   position{line: 100, col: 19, offset: 2205},
+							pos:   position{line: 103, col: 19, offset: 2424},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 100, col: 23, offset: 2209},
+								pos: position{line: 103, col: 23, offset: 2428},
 								expr: &charClassMatcher{
-									pos:        position{line: 100, col: 23, offset: 2209},
+									pos:        position{line: 103, col: 23, offset: 2428},
 									val:        "[^\\r\\n}]",
 									chars:      []rune{'\r', '\n', '}'},
 									ignoreCase: false,
@@ -579,21 +669,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 102, col: 5, offset: 2254},
+						pos: position{line: 105, col: 5, offset: 2473},
 						run: (*parser).callonVerbatimString6,
 						expr: &seqExpr{
-							pos: position{line: 102, col: 5, offset: 2254},
+							pos: position{line: 105, col: 5, offset: 2473},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 102, col: 5, offset: 2254},
+									pos:        position{line: 105, col: 5, offset: 2473},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
 								},
 								&notExpr{
-									pos: position{line: 102, col: 9, offset: 2258},
+									pos: position{line: 105, col: 9, offset: 2477},
 									expr: &litMatcher{
-										pos:        position{line: 102, col: 10, offset: 2259},
+										pos:        position{line: 105, col: 10, offset: 2478},
 										val:        "}}",
 										ignoreCase: false,
 										want:       "\"}}\"",
@@ -607,34 +697,34 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlockLine",
-			pos:  position{line: 106, col: 1, offset: 2298},
+			pos:  position{line: 109, col: 1, offset: 2517},
 			expr: &actionExpr{
-				pos: position{line: 106, col: 26, offset: 2323},
+				pos: position{line: 109, col: 26, offset: 2542},
 				run: (*parser).callonPreformattedBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 106, col: 26, offset: 2323},
+					pos: position{line: 109, col: 26, offset: 2542},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 106, col: 26, offset: 2323},
+							pos:   position{line: 109, col: 26, offset: 2542},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 106, col: 33, offset: 2330},
+								pos:  position{line: 109, col: 33, offset: 2549},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 106, col: 40, offset: 2337},
+							pos:   position{line: 109, col: 40, offset: 2556},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 106, col: 46, offset: 2343},
+								pos: position{line: 109, col: 46, offset: 2562},
 								expr: &ruleRefExpr{
-									pos:  position{line: 106, col: 46, offset: 2343},
+									pos:  position{line: 109, col: 46, offset: 2562},
 									name: "Word",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 106, col: 52, offset: 2349},
+							pos:  position{line: 109, col: 52, offset: 2568},
 							name: "LineBreak",
 						},
 					},
@@ -643,32 +733,32 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 112, col: 1, offset: 2471},
+			pos:  position{line: 115, col: 1, offset: 2690},
 			expr: &actionExpr{
-				pos: position{line: 112, col: 22, offset: 2492},
+				pos: position{line: 115, col: 22, offset: 2711},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 112, col: 22, offset: 2492},
+					pos: position{line: 115, col: 22, offset: 2711},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 112, col: 22, offset: 2492},
+							pos:  position{line: 115, col: 22, offset: 2711},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 112, col: 32, offset: 2502},
+							pos:   position{line: 115, col: 32, offset: 2721},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 112, col: 38, offset: 2508},
+								pos: position{line: 115, col: 38, offset: 2727},
 								expr: &ruleRefExpr{
-									pos:  position{line: 112, col: 38, offset: 2508},
+									pos:  position{line: 115, col: 38, offset: 2727},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 112, col: 61, offset: 2531},
+							pos: position{line: 115, col: 61, offset: 2750},
 							expr: &charClassMatcher{
-								pos:        position{line: 112, col: 61, offset: 2531},
+								pos:        position{line: 115, col: 61, offset: 2750},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -681,17 +771,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 116, col: 1, offset: 2589},
+			pos:  position{line: 119, col: 1, offset: 2808},
 			expr: &actionExpr{
-				pos: position{line: 116, col: 17, offset: 2605},
+				pos: position{line: 119, col: 17, offset: 2824},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 116, col: 17, offset: 2605},
+					pos:   position{line: 119, col: 17, offset: 2824},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 116, col: 23, offset: 2611},
+						pos: position{line: 119, col: 23, offset: 2830},
 						expr: &ruleRefExpr{
-							pos:  position{line: 116, col: 23, offset: 2611},
+							pos:  position{line: 119, col: 23, offset: 2830},
 							name: "VerbatimString",
 						},
 					},
@@ -700,34 +790,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 120, col: 1, offset: 2674},
+			pos:  position{line: 123, col: 1, offset: 2893},
 			expr: &actionExpr{
-				pos: position{line: 120, col: 22, offset: 2695},
+				pos: position{line: 123, col: 22, offset: 2914},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 120, col: 22, offset: 2695},
+					pos: position{line: 123, col: 22, offset: 2914},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 120, col: 22, offset: 2695},
+							pos:   position{line: 123, col: 22, offset: 2914},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 120, col: 29, offset: 2702},
+								pos:  position{line: 123, col: 29, offset: 2921},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 120, col: 36, offset: 2709},
+							pos:   position{line: 123, col: 36, offset: 2928},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 120, col: 42, offset: 2715},
+								pos: position{line: 123, col: 42, offset: 2934},
 								expr: &ruleRefExpr{
-									pos:  position{line: 120, col: 42, offset: 2715},
+									pos:  position{line: 123, col: 42, offset: 2934},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 120, col: 58, offset: 2731},
+							pos:  position{line: 123, col: 58, offset: 2950},
 							name: "LineBreak",
 						},
 					},
@@ -736,32 +826,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 126, col: 1, offset: 2853},
+			pos:  position{line: 129, col: 1, offset: 3072},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 18, offset: 2870},
+				pos: position{line: 129, col: 18, offset: 3089},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 18, offset: 2870},
+					pos: position{line: 129, col: 18, offset: 3089},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 126, col: 18, offset: 2870},
+							pos:  position{line: 129, col: 18, offset: 3089},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 28, offset: 2880},
+							pos:   position{line: 129, col: 28, offset: 3099},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 126, col: 34, offset: 2886},
+								pos: position{line: 129, col: 34, offset: 3105},
 								expr: &ruleRefExpr{
-									pos:  position{line: 126, col: 34, offset: 2886},
+									pos:  position{line: 129, col: 34, offset: 3105},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 126, col: 53, offset: 2905},
+							pos: position{line: 129, col: 53, offset: 3124},
 							expr: &charClassMatcher{
-								pos:        position{line: 126, col: 53, offset: 2905},
+								pos:        position{line: 129, col: 53, offset: 3124},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -774,26 +864,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 130, col: 1, offset: 2963},
+			pos:  position{line: 133, col: 1, offset: 3182},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 11, offset: 2973},
+				pos: position{line: 133, col: 11, offset: 3192},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 130, col: 11, offset: 2973},
+					pos: position{line: 133, col: 11, offset: 3192},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 130, col: 11, offset: 2973},
+							pos:        position{line: 133, col: 11, offset: 3192},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 130, col: 16, offset: 2978},
+							pos:   position{line: 133, col: 16, offset: 3197},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 130, col: 22, offset: 2984},
+								pos: position{line: 133, col: 22, offset: 3203},
 								expr: &charClassMatcher{
-									pos:        position{line: 130, col: 22, offset: 2984},
+									pos:        position{line: 133, col: 22, offset: 3203},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -803,12 +893,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 130, col: 31, offset: 2993},
+							pos:   position{line: 133, col: 31, offset: 3212},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 130, col: 37, offset: 2999},
+								pos: position{line: 133, col: 37, offset: 3218},
 								expr: &ruleRefExpr{
-									pos:  position{line: 130, col: 37, offset: 2999},
+									pos:  position{line: 133, col: 37, offset: 3218},
 									name: "Argument",
 								},
 							},
@@ -819,38 +909,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 143, col: 1, offset: 3215},
+			pos:  position{line: 146, col: 1, offset: 3434},
 			expr: &actionExpr{
-				pos: position{line: 143, col: 16, offset: 3230},
+				pos: position{line: 146, col: 16, offset: 3449},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 143, col: 16, offset: 3230},
+					pos: position{line: 146, col: 16, offset: 3449},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 143, col: 16, offset: 3230},
+							pos:        position{line: 146, col: 16, offset: 3449},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 143, col: 22, offset: 3236},
+							pos:   position{line: 146, col: 22, offset: 3455},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 143, col: 28, offset: 3242},
+								pos: position{line: 146, col: 28, offset: 3461},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 143, col: 28, offset: 3242},
+										pos:  position{line: 146, col: 28, offset: 3461},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 143, col: 44, offset: 3258},
+										pos:  position{line: 146, col: 44, offset: 3477},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 143, col: 58, offset: 3272},
+							pos:        position{line: 146, col: 58, offset: 3491},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -861,29 +951,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 147, col: 1, offset: 3302},
+			pos:  position{line: 150, col: 1, offset: 3521},
 			expr: &actionExpr{
-				pos: position{line: 147, col: 20, offset: 3321},
+				pos: position{line: 150, col: 20, offset: 3540},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 147, col: 20, offset: 3321},
+					pos: position{line: 150, col: 20, offset: 3540},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 147, col: 20, offset: 3321},
+							pos:        position{line: 150, col: 20, offset: 3540},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 147, col: 25, offset: 3326},
+							pos:   position{line: 150, col: 25, offset: 3545},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 147, col: 30, offset: 3331},
+								pos:  position{line: 150, col: 30, offset: 3550},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 147, col: 48, offset: 3349},
+							pos:        position{line: 150, col: 48, offset: 3568},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -894,14 +984,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 151, col: 1, offset: 3378},
+			pos:  position{line: 154, col: 1, offset: 3597},
 			expr: &actionExpr{
-				pos: position{line: 151, col: 13, offset: 3390},
+				pos: position{line: 154, col: 13, offset: 3609},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 151, col: 13, offset: 3390},
+					pos: position{line: 154, col: 13, offset: 3609},
 					expr: &ruleRefExpr{
-						pos:  position{line: 151, col: 13, offset: 3390},
+						pos:  position{line: 154, col: 13, offset: 3609},
 						name: "CommentSpacing",
 					},
 				},
@@ -909,37 +999,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 153, col: 1, offset: 3427},
+			pos:  position{line: 156, col: 1, offset: 3646},
 			expr: &actionExpr{
-				pos: position{line: 153, col: 8, offset: 3434},
+				pos: position{line: 156, col: 8, offset: 3653},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 153, col: 8, offset: 3434},
+					pos: position{line: 156, col: 8, offset: 3653},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 153, col: 8, offset: 3434},
+							pos:        position{line: 156, col: 8, offset: 3653},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 153, col: 12, offset: 3438},
+							pos:   position{line: 156, col: 12, offset: 3657},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 153, col: 17, offset: 3443},
+								pos: position{line: 156, col: 17, offset: 3662},
 								expr: &choiceExpr{
-									pos: position{line: 153, col: 18, offset: 3444},
+									pos: position{line: 156, col: 18, offset: 3663},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 153, col: 18, offset: 3444},
+											pos:  position{line: 156, col: 18, offset: 3663},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 153, col: 32, offset: 3458},
+											pos:  position{line: 156, col: 32, offset: 3677},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 153, col: 42, offset: 3468},
+											pos:  position{line: 156, col: 42, offset: 3687},
 											name: "EmptyArg",
 										},
 									},
@@ -947,7 +1037,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 153, col: 53, offset: 3479},
+							pos:        position{line: 156, col: 53, offset: 3698},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -958,25 +1048,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 161, col: 1, offset: 3570},
+			pos:  position{line: 164, col: 1, offset: 3789},
 			expr: &actionExpr{
-				pos: position{line: 161, col: 12, offset: 3581},
+				pos: position{line: 164, col: 12, offset: 3800},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 161, col: 12, offset: 3581},
+					pos: position{line: 164, col: 12, offset: 3800},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 161, col: 12, offset: 3581},
+							pos:   position{line: 164, col: 12, offset: 3800},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 161, col: 18, offset: 3587},
+								pos:  position{line: 164, col: 18, offset: 3806},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 161, col: 29, offset: 3598},
+							pos: position{line: 164, col: 29, offset: 3817},
 							expr: &charClassMatcher{
-								pos:        position{line: 161, col: 29, offset: 3598},
+								pos:        position{line: 164, col: 29, offset: 3817},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -989,20 +1079,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 165, col: 1, offset: 3630},
+			pos:  position{line: 168, col: 1, offset: 3849},
 			expr: &choiceExpr{
-				pos: position{line: 165, col: 13, offset: 3642},
+				pos: position{line: 168, col: 13, offset: 3861},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 165, col: 13, offset: 3642},
+						pos:  position{line: 168, col: 13, offset: 3861},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 165, col: 27, offset: 3656},
+						pos:  position{line: 168, col: 27, offset: 3875},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 165, col: 45, offset: 3674},
+						pos:  position{line: 168, col: 45, offset: 3893},
 						name: "Arg",
 					},
 				},
@@ -1010,14 +1100,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 167, col: 1, offset: 3679},
+			pos:  position{line: 170, col: 1, offset: 3898},
 			expr: &actionExpr{
-				pos: position{line: 167, col: 11, offset: 3689},
+				pos: position{line: 170, col: 11, offset: 3908},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 167, col: 11, offset: 3689},
+					pos: position{line: 170, col: 11, offset: 3908},
 					expr: &charClassMatcher{
-						pos:        position{line: 167, col: 11, offset: 3689},
+						pos:        position{line: 170, col: 11, offset: 3908},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1099,6 +1189,16 @@ func (p *parser) callonWord1() (interface{}, error) {
 	return p.cur.onWord1(stack["val"])
 }
 
+func (c *current) onInterpolated6(w interface{}) (interface{}, error) {
+	return w, nil
+}
+
+func (p *parser) callonInterpolated6() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onInterpolated6(stack["w"])
+}
+
 func (c *current) onInterpolated1(word interface{}) (interface{}, error) {
 	if word == nil {
 		return Sequence{}, nil
-- 
2.43.0

