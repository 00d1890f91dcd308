From 13f7c32a1234fcd7b37c7c1cf3a7dce5b84a7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:27 +0000
Subject: [PATCH 01/25] fix: don't override a character before a trailing #
 when there is no escaping placeholder

---
 plugin/commonmark/render_heading.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a350e8b..70a018a 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -93,6 +93,12 @@ func escapePoundSignAtEnd(s []byte) []byte {
 		return s
 	}
 
+	if len(s) < 2 || rune(s[len(s)-2]) != marker.MarkerEscaping {
+		// There is no placeholder (e.g. the escaping is disabled),
+		// so there is nothing that could be overridden.
+		return s
+	}
+
 	// Because we have a # at the end,
 	// we should manually force the escaping
 	// by overriding the placeholder.
-- 
2.43.0


From 908bbd119cfd75a047539076f63303f7ea642c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:28 +0000
Subject: [PATCH 02/25] fix: prefix every line of a code block inside a
 blockquote

---
 plugin/commonmark/render_blockquote.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 588e89e..5fac527 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -21,6 +22,13 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
+	// The newlines inside of code blocks are temporarily replaced by a marker,
+	// but every line of a code block needs the prefix as well.
+	content = bytes.ReplaceAll(
+		content,
+		marker.BytesMarkerCodeBlockNewline,
+		append(bytes.Clone(marker.BytesMarkerCodeBlockNewline), '>', ' '),
+	)
 
 	w.WriteRune('\n')
 	w.WriteRune('\n')
-- 
2.43.0


From 0c3f27145822e30515c00602fba31d6c64bea446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:03 +0000
Subject: [PATCH 03/25] fix: keep the info string of a code block on the fence
 line

---
 plugin/commonmark/render_code.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e939384..b9c3dd9 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -78,6 +78,12 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 	// Because multiple newlines would be trimmed, we temporarily replace it with another character.
 	code = bytes.ReplaceAll(code, []byte("\n"), marker.BytesMarkerCodeBlockNewline)
 
+	if strings.ContainsRune(infoString, fenceChar) {
+		// The info string cannot contain the fence character,
+		// otherwise it would not be recognized as the opening fence.
+		infoString = ""
+	}
+
 	w.WriteString("\n\n")
 	w.WriteString(fence)
 	w.WriteString(infoString)
@@ -93,7 +99,8 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 func getCodeLanguage(n *html.Node) string {
 	class := dom.GetAttributeOr(n, "class", "")
 
-	parts := strings.Split(class, " ")
+	// The classes can be separated by any whitespace (also newlines)
+	parts := strings.Fields(class)
 	for _, part := range parts {
 		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
 			continue
-- 
2.43.0


From 8ef48d9b81bd06eec53664125f7e9cf61d24b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:03 +0000
Subject: [PATCH 04/25] fix: don't sort the registered tag types in place while
 only holding the read lock

---
 converter/register.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/register.go b/converter/register.go
index d200ded..ba5a146 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -215,6 +215,8 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 		return "", false
 	}
 
+	// Sort a copy, since there can be multiple conversions at the same time
+	types = append(prioritizedSlice[tagType](nil), types...)
 	types.Sort()
 	firstType := types[0].Value
 
-- 
2.43.0


From 0b0815efdf8a62585ae6180992a636e1f7514828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 05/25] fix: encode backslashes and carriage returns that are
 left in a link destination

---
 converter/url.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/url.go b/converter/url.go
index 7de62f8..cca1e1e 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -13,6 +13,8 @@ var percentEncodingReplacer = strings.NewReplacer(
 	")", "%29",
 	"<", "%3C",
 	">", "%3E",
+	"\r", "%0D",
+	"\\", "%5C",
 )
 
 func parseBaseDomain(rawDomain string) *url.URL {
-- 
2.43.0


From 2e3556e1a9e9e1bf28e8dc298106daf22a7c99ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 06/25] fix: escape the image description so that it cannot end
 early

---
 plugin/commonmark/render_image.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 81f761e..6a13cd7 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -14,14 +14,19 @@ func escapeAlt(altString string) string {
 	alt := []byte(altString)
 
 	var buf bytes.Buffer
+	// Whether the character is already escaped by a preceding backslash
+	var isEscaped bool
 	for i := range alt {
-		if alt[i] == '[' || alt[i] == ']' {
-			prevIndex := i - 1
-			if prevIndex < 0 || alt[prevIndex] != '\\' {
-				buf.WriteRune('\\')
-			}
+		if (alt[i] == '[' || alt[i] == ']' || alt[i] == '`') && !isEscaped {
+			buf.WriteRune('\\')
 		}
 		buf.WriteByte(alt[i])
+
+		isEscaped = alt[i] == '\\' && !isEscaped
+	}
+	if isEscaped {
+		// Otherwise the backslash would escape the closing bracket
+		buf.WriteRune('\\')
 	}
 
 	return buf.String()
-- 
2.43.0


From 8cefec3001f2327384c7170e7f5774bc1663030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 07/25] fix: keep titles and image descriptions with
 backslashes or carriage returns intact

---
 internal/textutils/quote.go       | 3 +++
 plugin/commonmark/render_image.go | 2 ++
 plugin/commonmark/render_link.go  | 1 +
 3 files changed, 6 insertions(+)

diff --git a/internal/textutils/quote.go b/internal/textutils/quote.go
index 0e8c7eb..e5c93e6 100644
--- a/internal/textutils/quote.go
+++ b/internal/textutils/quote.go
@@ -17,6 +17,9 @@ func SurroundByQuotes(content []byte) []byte {
 		return nil
 	}
 
+	// A backslash could otherwise escape the closing quote
+	content = bytes.ReplaceAll(content, []byte(`\`), []byte(`\\`))
+
 	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
 	containsSingleQuote := bytes.ContainsRune(content, SINGLE_QUOTE)
 
diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 6a13cd7..cc424b9 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -43,9 +43,11 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 
 	title := dom.GetAttributeOr(n, "title", "")
 	title = strings.ReplaceAll(title, "\n", " ")
+	title = strings.ReplaceAll(title, "\r", " ")
 
 	alt := dom.GetAttributeOr(n, "alt", "")
 	alt = strings.ReplaceAll(alt, "\n", " ")
+	alt = strings.ReplaceAll(alt, "\r", " ")
 
 	// The alt description will be placed between two square brackets `[alt]`
 	// so make sure that those characters are escaped.
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 9919b18..c98028f 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -60,6 +60,7 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 
 	title := dom.GetAttributeOr(n, "title", "")
 	title = strings.ReplaceAll(title, "\n", " ")
+	title = strings.ReplaceAll(title, "\r", " ")
 
 	l := &link{
 		Node:  n,
-- 
2.43.0


From a5bc04e36c910acf893429409e6c39c7e40ee248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 08/25] fix: keep inline code on one line and don't add a space
 to only one side

---
 plugin/commonmark/render_code.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index b9c3dd9..02b4dd7 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -29,6 +29,10 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 		// return c.renderBlockCode(ctx, w, n, render)
 	}
 
+	// Blank lines would interrupt the paragraph, so the code has to stay on one line.
+	codeContent = bytes.ReplaceAll(codeContent, []byte("\n"), []byte(" "))
+	codeContent = bytes.ReplaceAll(codeContent, []byte("\r"), []byte(" "))
+
 	if bytes.TrimSpace(codeContent) == nil {
 		// No stripping occurs if the code span contains _only_ spaces:
 		w.WriteRune(fenceChar)
@@ -49,13 +53,10 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 
 	fence := strings.Repeat(string(fenceChar), maxCount)
 
-	// Code contains a backtick as first character
-	if strings.HasPrefix(code, "`") {
-		code = " " + code
-	}
-	// Code contains a backtick as last character
-	if strings.HasSuffix(code, "`") {
-		code = code + " "
+	// Code contains a backtick as first or last character.
+	// Note: The spaces are only stripped if there is one on *both* sides.
+	if strings.HasPrefix(code, "`") || strings.HasSuffix(code, "`") {
+		code = " " + code + " "
 	}
 
 	w.WriteString(fence)
-- 
2.43.0


From 62d7dc9b40e4602ef207336cab20090844c085fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 09/25] fix: ignore a list start that is not a valid list
 number

---
 plugin/commonmark/render_list.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index d99109c..8e19c36 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -13,6 +13,10 @@ import (
 	"golang.org/x/net/html"
 )
 
+// An ordered list number can be at most nine digits long (and not negative),
+// otherwise it would not be recognized as a list.
+const maxListNumber = 999999999
+
 func getStartAt(node *html.Node) int {
 	startVal := dom.GetAttributeOr(node, "start", "1")
 	startAt, err := strconv.Atoi(startVal)
@@ -25,6 +29,9 @@ func getStartAt(node *html.Node) int {
 
 func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) string {
 	startAt := getStartAt(n)
+	if startAt < 0 || startAt > maxListNumber-(sliceLength-1) {
+		startAt = 1
+	}
 
 	return func(sliceIndex int) string {
 		if n.Data == "ul" {
-- 
2.43.0


From 4f77058af2873567d04669eeb1888e8d16c31e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 10/25] fix: only accept delimiters and rules that consist of
 the required characters

---
 plugin/commonmark/validation.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index bf22ce9..a05980c 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -39,14 +39,14 @@ func (e *ValidateConfigError) Error() string {
 }
 
 func validateConfig(cfg *config) error {
-	if strings.Count(cfg.EmDelimiter, "_") != 1 && strings.Count(cfg.EmDelimiter, "*") != 1 {
+	if cfg.EmDelimiter != "_" && cfg.EmDelimiter != "*" {
 		return &ValidateConfigError{
 			Key:                "EmDelimiter",
 			Value:              cfg.EmDelimiter,
 			patternDescription: `exactly 1 character of "*" or "_"`,
 		}
 	}
-	if strings.Count(cfg.StrongDelimiter, "_") != 2 && strings.Count(cfg.StrongDelimiter, "*") != 2 {
+	if cfg.StrongDelimiter != "__" && cfg.StrongDelimiter != "**" {
 		return &ValidateConfigError{
 			Key:                "StrongDelimiter",
 			Value:              cfg.StrongDelimiter,
@@ -54,9 +54,12 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
-	if strings.Count(cfg.HorizontalRule, "*") < 3 &&
-		strings.Count(cfg.HorizontalRule, "_") < 3 &&
-		strings.Count(cfg.HorizontalRule, "-") < 3 {
+	rule := strings.ReplaceAll(cfg.HorizontalRule, " ", "")
+	rule = strings.ReplaceAll(rule, "\t", "")
+	if len(rule) < 3 ||
+		(strings.Count(rule, "*") != len(rule) &&
+			strings.Count(rule, "_") != len(rule) &&
+			strings.Count(rule, "-") != len(rule)) {
 		return &ValidateConfigError{
 			Key:                "HorizontalRule",
 			Value:              cfg.HorizontalRule,
-- 
2.43.0


From 1d717454fdfeed979bd4682183b9904536690524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 11/25] fix: escape the text of a blockquote before the
 prefixes are added

---
 plugin/commonmark/render_blockquote.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 5fac527..73c1d2a 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -21,6 +21,9 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
+	// The decision about escaping depends on the start of the line,
+	// so it has to be made before the prefix is added.
+	content = ctx.UnEscapeContent(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
 	// The newlines inside of code blocks are temporarily replaced by a marker,
 	// but every line of a code block needs the prefix as well.
-- 
2.43.0


From 006ea4bd8352c956d011b6a1a0d234919e546441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 12/25] fix: don't put blank lines of block children into a
 setext heading

---
 plugin/commonmark/render_heading.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 70a018a..3a4ff61 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -123,6 +123,7 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	if c.HeadingStyle == HeadingStyleSetext && level < 3 {
 		// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 		// since `EscapeMultiLine` also takes care of newlines.
+		content = bytes.TrimSpace(content)
 		content = textutils.TrimConsecutiveNewlines(content)
 		content = textutils.EscapeMultiLine(content)
 
-- 
2.43.0


From 3d5db97c5e749214722b139d2fef43203f639156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 13/25] fix: escape every "|" in a table cell, also in code and
 titles

A "|" that is not part of a text (e.g. in inline code, the title of a link
or the description of an image) was taken for the end of the cell.
---
 plugin/table/2_collect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index cfe615b..e699f34 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -178,7 +178,9 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		content = bytes.TrimSpace(content)
 
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
-		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\|`), -1)
+		// This also applies to the content of inline code, to titles and so on.
+		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte("|"), -1)
+		content = bytes.Replace(content, []byte("|"), []byte(`\|`), -1)
 		content = ctx.UnEscapeContent(content)
 
 		cellContents = append(cellContents, content)
-- 
2.43.0


From 0f840b1983d4238c2fb12d1eb194bcaa54c5bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:28 +0000
Subject: [PATCH 14/25] fix: place the cells after a spanning cell correctly

The position of a cell did not account for the columns that are spanned by
the cells before it in the same row.
---
 plugin/table/2_collect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index e699f34..9f54d14 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -170,7 +170,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 	cellContents := make([][]byte, 0, len(cellNodes))
 	modifications := make([]modification, 0)
 
-	for index, cellNode := range cellNodes {
+	index := 0
+	for _, cellNode := range cellNodes {
 		var buf bytes.Buffer
 		ctx.RenderNodes(ctx, &buf, cellNode)
 
@@ -192,6 +193,9 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
 
 		modifications = append(modifications, mods...)
+
+		// The next cell comes after all the columns of this cell
+		index += colSpan
 	}
 
 	return cellContents, modifications
-- 
2.43.0


From 748816d756fb4c92b7b4449d17e1daee8c29c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 15/25] fix: apply the alignment of a cell to every column that
 it spans

---
 plugin/table/2_collect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 9f54d14..b163edc 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -156,7 +156,10 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 	for _, cellNode := range cellNodes {
 		align := dom.GetAttributeOr(cellNode, "align", "")
 
-		alignments = append(alignments, align)
+		// The alignment applies to every column that the cell spans
+		for range getNumberAttributeOr(cellNode, "colspan", 1) {
+			alignments = append(alignments, align)
+		}
 	}
 
 	return alignments
-- 
2.43.0


From 578433b84d3395249329d4ef8108af614904c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 16/25] fix: also replace the newlines of code blocks in table
 cells

With NewlineBehaviorPreserve the newlines of a code block (that are
represented by a marker) ended up as real newlines inside the table.
---
 plugin/table/2_collect.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index b163edc..df051b1 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -104,6 +104,8 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 			if containsNewline(cell) {
 				if p.newlineBehavior == NewlineBehaviorPreserve {
 					// Replace newlines with <br /> tags
+					// (the newlines inside code blocks are represented by a marker)
+					cell = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("\n"))
 					rows[i][j] = bytes.ReplaceAll(cell, []byte("\n"), []byte("<br />"))
 					continue
 				}
-- 
2.43.0


From 8a38a8b52a74b1f520cc3bcef9ce935f9ff14257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 17/25] fix: keep the whitespace around the elements that are
 rendered as inline code

The whitespace after e.g. "<kbd>x </kbd>" was removed since the text inside
ends with a space. But that space is not part of the rendered inline code.
---
 collapse/is_node.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/collapse/is_node.go b/collapse/is_node.go
index f0d524d..3fa8b30 100644
--- a/collapse/is_node.go
+++ b/collapse/is_node.go
@@ -36,8 +36,13 @@ var defaultIsVoidNode = func(node *html.Node) bool {
 }
 var defaultIsPreformattedNode = func(node *html.Node) bool {
 	// Note: Originally in the javascript version, this just checked for "pre".
-	// I changed it, to also return true for "code"
+	// I changed it, to also return true for "code" (and the other elements
+	// that are treated as inline code).
 	name := dom.NodeName(node)
 
-	return name == "pre" || name == "code"
+	switch name {
+	case "pre", "code", "var", "samp", "kbd", "tt":
+		return true
+	}
+	return false
 }
-- 
2.43.0


From cbd0484a4f9a61a4979e0f1c1d550b1f288eb6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:13 +0000
Subject: [PATCH 18/25] fix: never use the same output filename for two input
 files

The filename for duplicates can be the standard filename of another input
file, in which case one of the outputs was lost with "--output-overwrite".
---
 cli/html2markdown/cmd/io_output.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 3037a09..4aeba70 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -85,16 +85,16 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 		filepath.ToSlash(filepath.Clean(inputFilepath)),
 	)
 
-	allBasenames := make(map[string]int)
+	allNames := make(map[string]bool)
+
 	for _, input := range inputs {
 		basenameWithExt := filepath.Base(input.inputFullFilepath)
 		basename := fileNameWithoutExtension(basenameWithExt)
 
-		val := allBasenames[basename]
-		if val == 0 {
-			// -> The standard filename
-			input.outputFullFilepath = basename + ".md"
-		} else {
+		// -> The standard filename
+		name := basename + ".md"
+
+		if allNames[name] {
 			relativePath, err := filepath.Rel(globBase, input.inputFullFilepath)
 			if err != nil {
 				return err
@@ -106,10 +106,16 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 			hash := hashFilepath(relativePath)
 
 			// -> The filename for duplicates
-			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
+			name = basename + "." + hash[:10] + ".md"
+
+			// That can also be the name of another input file (e.g. "website.600239fff1.html")
+			for i := 2; allNames[name]; i++ {
+				name = fmt.Sprintf("%s.%s.%d.md", basename, hash[:10], i)
+			}
 		}
 
-		allBasenames[basename]++
+		input.outputFullFilepath = name
+		allNames[name] = true
 	}
 
 	return nil
-- 
2.43.0


From 6ade2a6df52d86a948181893e0e02715092f8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:16 +0000
Subject: [PATCH 19/25] fix: collapse white space after a comment that follows
 a void element

The protection of the space after a void element (or code) was only dropped by
the next element, so a text, a comment and another text after an image kept two
spaces in a row.
---
 collapse/collapse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collapse/collapse.go b/collapse/collapse.go
index 6a2c015..a4ed117 100644
--- a/collapse/collapse.go
+++ b/collapse/collapse.go
@@ -135,6 +135,7 @@ func Collapse(element *html.Node, domFuncs *DomFuncs) {
 			node.Data = text
 
 			prevText = node
+			keepLeadingWs = false
 		} else if node.Type == html.ElementNode { // Node.ELEMENT_NODE
 			if domFuncs.IsBlockNode(node) || dom.NodeName(node) == "br" {
 				if prevText != nil {
-- 
2.43.0


From bf09b3d575f61416b141bb67a3c4fe463e9390a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:22 +0000
Subject: [PATCH 20/25] fix: do not merge emphasis or code across blocks, nor
 add spaces in a code block

MergeAdjacent left the enclosing block when it looked for adjacent nodes, so the
first bold (or code) of the next block was moved into the previous one. AddSpace
added spaces to the text inside a pre, which is part of the code.
---
 internal/domutils/add_space.go | 12 +++++++++++-
 internal/domutils/adjacent.go  | 20 ++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index f26c0d7..a879068 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -24,6 +24,16 @@ func getFirstChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *h
 	return nil
 }
 
+// The content of a code block stays as it is.
+func isInsidePre(node *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if dom.NodeName(p) == "pre" {
+			return true
+		}
+	}
+	return false
+}
+
 func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *html.Node {
 	node := startNode.LastChild
 	for node != nil {
@@ -43,7 +53,7 @@ func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *ht
 func AddSpace(ctx context.Context, doc *html.Node, isOuterNode, isInnerNode func(*html.Node) bool) {
 	node := doc
 	for node != nil {
-		if isOuterNode(node) {
+		if isOuterNode(node) && !isInsidePre(node) {
 			firstChild := getFirstChildNode(node, isInnerNode)
 			if firstChild != nil {
 				prev := getPrevTextNode(node)
diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index 49faccb..3fc49f0 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -5,6 +5,18 @@ import (
 	"golang.org/x/net/html"
 )
 
+// getNextNodeInBlock is the next neighbor (excluding the own children)
+// that is still inside the same block as the node.
+func getNextNodeInBlock(node *html.Node) *html.Node {
+	for node.NextSibling == nil {
+		node = node.Parent
+		if node == nil || dom.NameIsBlockNode(dom.NodeName(node)) {
+			return nil
+		}
+	}
+	return node.NextSibling
+}
+
 func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
 	var collectedNodes []*html.Node
 
@@ -13,10 +25,14 @@ func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*h
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetNextNeighborNode(node)
+			if node.FirstChild != nil {
+				node = node.FirstChild
+			} else {
+				node = getNextNodeInBlock(node)
+			}
 		} else if matchFn(node) {
 			collectedNodes = append(collectedNodes, node)
-			node = dom.GetNextNeighborNodeExcludingOwnChild(node)
+			node = getNextNodeInBlock(node)
 		} else {
 			// Return the collected nodes
 			return collectedNodes
-- 
2.43.0


From 826e036628586c760541d838f04fad960df5d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 21/25] fix: read the names of the registered plugins with the
 lock held

---
 converter/convert.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/convert.go b/converter/convert.go
index 047f64f..09f05e6 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -76,8 +76,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, errNoRenderHandlers
 	}
 
+	conv.m.RLock()
 	containsCommonmark := slices.Contains(conv.registeredPlugins, "commonmark")
 	containsBase := slices.Contains(conv.registeredPlugins, "base")
+	conv.m.RUnlock()
 	if containsCommonmark && !containsBase {
 		return nil, errBasePluginMissing
 	}
-- 
2.43.0


From 58d5416df144dcfcd4a3fca18e9746749335cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:21 +0000
Subject: [PATCH 22/25] fix: limit the spans of table cells like browsers do

---
 plugin/table/utils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index dc1eacb..09dd515 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -57,6 +57,14 @@ func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 		return fallback
 	}
 
+	// These are the same limits that browsers apply to the spans.
+	switch key {
+	case "colspan":
+		return min(num, 1000)
+	case "rowspan":
+		return min(num, 65534)
+	}
+
 	return num
 }
 
-- 
2.43.0


From 6f75a58cdc90c7a42b86b7315f266c8a6a3a1209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:19 +0000
Subject: [PATCH 23/25] fix: separate the content around an empty heading, list
 or blockquote

---
 plugin/commonmark/render_blockquote.go | 2 ++
 plugin/commonmark/render_heading.go    | 2 ++
 plugin/commonmark/render_list.go       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 73c1d2a..ab9b4a0 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -16,6 +16,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
 	if content == nil {
+		// Even without content it separates the content around it.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 3a4ff61..0cba86c 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -117,6 +117,8 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	content := buf.Bytes()
 
 	if len(bytes.TrimSpace(content)) == 0 {
+		// Even without content it separates the content around it.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 8e19c36..01c90d1 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -90,6 +90,8 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 	}
 
 	if len(items) == 0 {
+		// Even without items it separates the content around it.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
-- 
2.43.0


From 01b0f9a4865a4cd7492012dd34cc2138f4a6482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:41 +0000
Subject: [PATCH 24/25] fix: exclude only the nodes that the selector matches
 in the document

---
 cli/html2markdown/cmd/cmd_convert.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 699ea41..f0f428d 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -52,21 +52,12 @@ func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
 		return nil
 	}
 
-	var finder func(node *html.Node)
-	finder = func(node *html.Node) {
-		if cli.config.excludeSelector.Match(node) {
-			dom.RemoveNode(node)
-			return
-		}
-
-		for child := node.FirstChild; child != nil; child = child.NextSibling {
-			// Because we are sometimes removing a node, this causes problems
-			// with the for loop. Using `defer` is a cool trick!
-			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
-			defer finder(child)
-		}
+	// All the matching nodes are collected before the first one is removed. Otherwise
+	// selectors like ":last-child" would match a node just because its sibling was removed.
+	nodes := cascadia.QueryAll(doc, cli.config.excludeSelector)
+	for _, n := range nodes {
+		dom.RemoveNode(n)
 	}
-	finder(doc)
 
 	return nil
 }
-- 
2.43.0


From abcc70de48fa9f886e59b0378c97f6f24c12f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:41 +0000
Subject: [PATCH 25/25] fix: keep the place of included nodes that are inside
 of each other

---
 cli/html2markdown/cmd/cmd_convert.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index f0f428d..280ed57 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -41,12 +41,25 @@ func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 
 	root := &html.Node{}
 	for _, n := range nodes {
+		if isInside(n, root) {
+			// It is already included, at its place inside of another matching node.
+			continue
+		}
+
 		dom.RemoveNode(n)
 		root.AppendChild(n)
 	}
 
 	return root, nil
 }
+func isInside(node *html.Node, ancestor *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if p == ancestor {
+			return true
+		}
+	}
+	return false
+}
 func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
 	if len(cli.config.excludeSelector) == 0 {
 		return nil
-- 
2.43.0

