// The renderers of the commonmark plugin.
package plugin/commonmark

// ------------------------------------------------------------ simple ones
func (c *commonmark) renderBreak(ctx, w, n) (r)
  property C27
  modifies w
  ensures hard_break: w == old(w) + "  \n"
  ensures success: r == 1
func (c *commonmark) renderDivider(ctx, w, n) (r)
  property C27
  modifies w
  ensures rule: w == old(w) + "\n\n" + c.config.HorizontalRule + "\n\n"
  ensures success: r == 1

// ------------------------------------------------------------ emphasis
func (c commonmark) getDelimiter(n) (r)
  property C07
  ensures strong: nodeName(n) == "strong" || nodeName(n) == "b" ==> r == c.config.StrongDelimiter
  ensures em: nodeName(n) == "em" || nodeName(n) == "i" ==> r == c.config.EmDelimiter
func (c commonmark) renderBoldItalic(ctx, w, n) (r)
  property C07
  requires ctx != nil
  modifies w, rendered
  ensures strong_every_line: nodeName(n) == "strong" || nodeName(n) == "b" ==> w == old(w) + delimLines(pieces(rendered[len(old(rendered))], 10), c.config.StrongDelimiter, len(pieces(rendered[len(old(rendered))], 10)))
  ensures em_every_line: nodeName(n) == "em" || nodeName(n) == "i" ==> w == old(w) + delimLines(pieces(rendered[len(old(rendered))], 10), c.config.EmDelimiter, len(pieces(rendered[len(old(rendered))], 10)))
  ensures success: r == 1

// ------------------------------------------------------------ block quotes
spec func marker() bytes { "\xef\x80\x82" }
spec func quoted(ctx ref, content bytes) bytes {
  let x = trimmed(content) in
  let y = norm(x, len(x)) + pend(x, len(x)) in
  let z = unescapedBy(ctx, softBreaks(y)) in
  repl(prefixed(z, "> ", len(z)), marker(), marker() + "> ", 0)
}
func (c *commonmark) renderBlockquote(ctx, w, n) (r)
  property C12
  requires ctx != nil
  modifies w, rendered
  ensures blank: blank(rendered[len(old(rendered))]) ==> w == old(w) + "\n\n"
  ensures every_line: !blank(rendered[len(old(rendered))]) ==> w == old(w) + "\n\n" + quoted(ctx, rendered[len(old(rendered))]) + "\n\n"
  ensures success: r == 1

// ------------------------------------------------------------ code
// What is read below an element: the texts in their order, a newline for br and
// div, nothing from style, script and textarea. codeText is of a node, codeFrom
// of a node and those after it; codeInfo is the first language that is named.
spec func codeText(n *html.Node) bytes
spec func codeFrom(n *html.Node) bytes
spec func codeInfo(n *html.Node) bytes
spec func infoFrom(n *html.Node) bytes
// the language is the first class that names one, without the first prefixes
spec func namesLanguage(p bytes) bool { contains(p, "language-", 0) || contains(p, "lang-", 0) }
spec func languageIn(ps seq[bytes], i int) bytes decreases len(ps) - i {
  if i < 0 || i >= len(ps) then "" else if namesLanguage(ps[i]) then replFirst(replFirst(ps[i], "language-", "", 0), "lang-", "", 0) else languageIn(ps, i+1)
}
spec func languageOf(n *html.Node) bytes { languageIn(fieldsOf(attrOr(n.Attr, "class", "", 0)), 0) }
spec func codeSkipped(n *html.Node) bool { n.Type == 3 && (n.Data == "style" || n.Data == "script" || n.Data == "textarea") }
spec func codeBreaks(n *html.Node) bool { n.Type == 3 && (n.Data == "br" || n.Data == "div") }
spec func ownInfo(n *html.Node) bytes { if n.Type == 3 && (n.Data == "code" || n.Data == "pre") then languageOf(n) else "" }
spec func firstInfo(a bytes, b bytes) bytes { if a == "" then b else a }
func getCodeLanguage(n) (r)
  property C05
  requires n != nil
  invariant languageIn(fieldsOf(attrOr(n.Attr, "class", "", 0)), 0) == languageIn(fieldsOf(attrOr(n.Attr, "class", "", 0)), $i)
  use without_stays_one_word
  ensures first_that_is_named: r == languageOf(n)
  ensures one_word: oneWord(r)
func getCodeWithoutTags$1(n)
  property C05
  requires n != nil
  requires forall m *html.Node {codeText(m)} :: m != nil ==> codeText(m) == (if codeSkipped(m) then "" else if m.Type == 1 then m.Data else (if codeBreaks(m) then "\n" else "") + codeFrom(m.FirstChild))
  requires forall m *html.Node {codeFrom(m)} :: m != nil ==> codeFrom(m) == codeText(m) + codeFrom(m.NextSibling)
  requires forall m *html.Node {codeInfo(m)} :: m != nil ==> codeInfo(m) == firstInfo(ownInfo(m), if codeSkipped(m) || m.Type == 1 then "" else infoFrom(m.FirstChild))
  requires forall m *html.Node {infoFrom(m)} :: m != nil ==> infoFrom(m) == firstInfo(codeInfo(m), infoFrom(m.NextSibling))
  requires codeFrom(nil) == "" && infoFrom(nil) == ""
  modifies buf, infoString
  ensures all_of_it: buf == old(buf) + codeText(n)
  ensures first_language: infoString == firstInfo(old(infoString), codeInfo(n))
  ensures one_word: oneWord(old(infoString)) ==> oneWord(infoString)
  invariant oneWord(old(infoString)) ==> oneWord(infoString)
  invariant buf + codeFrom(c) == old(buf) + codeText(n)
  invariant firstInfo(infoString, infoFrom(c)) == firstInfo(old(infoString), codeInfo(n))
func getCodeWithoutTags(startNode) (code, info)
  property C05
  requires startNode != nil
  given forall m *html.Node {codeText(m)} :: m != nil ==> codeText(m) == (if codeSkipped(m) then "" else if m.Type == 1 then m.Data else (if codeBreaks(m) then "\n" else "") + codeFrom(m.FirstChild))
  given forall m *html.Node {codeFrom(m)} :: m != nil ==> codeFrom(m) == codeText(m) + codeFrom(m.NextSibling)
  given forall m *html.Node {codeInfo(m)} :: m != nil ==> codeInfo(m) == firstInfo(ownInfo(m), if codeSkipped(m) || m.Type == 1 then "" else infoFrom(m.FirstChild))
  given forall m *html.Node {infoFrom(m)} :: m != nil ==> infoFrom(m) == firstInfo(codeInfo(m), infoFrom(m.NextSibling))
  given codeFrom(nil) == "" && infoFrom(nil) == ""
  ensures all_of_it: code == codeText(startNode)
  ensures first_language: info == codeInfo(startNode)
  ensures one_word: oneWord(info)

// the code as it is shown on one line
spec func oneLine(s bytes) bytes {
  let a = repl1(s, '\n', " ", len(s)) in repl1(a, '\r', " ", len(a))
}
spec func inlineCode(s bytes) bytes {
  let a = spaced(oneLine(s)) in squeeze(a, len(a))
}
spec func padded(c bytes) bytes {
  if len(c) > 0 && (c[0] == '`' || c[len(c)-1] == '`') then " " + c + " " else c
}
func (c *commonmark) renderInlineCode(ctx, w, n) (r)
  property C06
  requires n != nil
  modifies w
  ensures blank: blank(oneLine(codeText(n))) ==> w == old(w) + "`" + oneLine(codeText(n)) + "`"
  ensures fenced: !blank(oneLine(codeText(n))) ==> (let s = inlineCode(codeText(n)) in w == old(w) + rep('`', maxrun(s, '`', len(s)) + 1) + padded(s) + rep('`', maxrun(s, '`', len(s)) + 1))
  ensures success: r == 1
  use maxrun_nonneg

spec func chomp(s bytes) bytes { if len(s) > 0 && s[len(s)-1] == '\n' then s[:len(s)-1] else s }
spec func fenceFor(c int, s bytes) bytes { rep(c, max(3, maxrun(s, c, len(s)) + 1)) }
func (c *commonmark) renderBlockCode(ctx, w, n) (r)
  property C04, C05
  requires n != nil && len(c.config.CodeBlockFence) > 0 && c.config.CodeBlockFence[0] < 128
  modifies w
  ensures verbatim: (let s = chomp(codeText(n)) in let f = c.config.CodeBlockFence[0] in
    w == old(w) + "\n\n" + fenceFor(f, s) + (if hasByte(codeInfo(n), f, len(codeInfo(n))) then "" else codeInfo(n)) + "\n" + repl1(s, '\n', marker(), len(s)) + "\n" + fenceFor(f, s) + "\n\n")
  ensures info_on_its_line: oneWord(codeInfo(n))
  ensures success: r == 1
func (c commonmark) handlePostRenderCodeBlockNewline(ctx, content) (r)
  property C05
  ensures newlines_back: r == repl(content, marker(), "\n", 0)

// every newline of the code comes back, and nothing else changes
spec func fwd(s bytes, c int, u bytes, i int) bytes decreases len(s) - i {
  if i < 0 || i >= len(s) then "" else (if s[i] == c then u else unit(s[i])) + fwd(s, c, u, i+1)
}
lemma fwd_back(s bytes, c int, u bytes, i int)
  requires 0 <= i <= len(s)
  decreases len(s) - i
  apply fwd_back(s, c, u, i+1) when i < len(s)
  ensures repl1(s, c, u, len(s)) == repl1(s, c, u, i) + fwd(s, c, u, i)
lemma code_comes_back(s bytes, p bytes, i int)
  property C05
  requires 0 <= i <= len(s)
  requires forall j int {s[j]} :: 0 <= j < len(s) ==> !(s[j] == 239 && j + 2 < len(s) && s[j+1] == 128 && s[j+2] == 130)
  decreases len(s) - i
  apply code_comes_back(s, p + marker(), i+1) when i < len(s) && s[i] == '\n'
  apply code_comes_back(s, p + unit(s[i]), i+1) when i < len(s) && s[i] != '\n'
  split i < len(s)
  split s[i] == '\n'
  assert i < len(s) && s[i] == '\n' ==> at(p + fwd(s, '\n', marker(), i), len(p), marker())
  assert i < len(s) && s[i] == '\n' ==> p + fwd(s, '\n', marker(), i) == (p + marker()) + fwd(s, '\n', marker(), i+1)
  assert i < len(s) && s[i] != '\n' ==> p + fwd(s, '\n', marker(), i) == (p + unit(s[i])) + fwd(s, '\n', marker(), i+1)
  assert i + 1 < len(s) ==> fwd(s, '\n', marker(), i+1)[0] == (if s[i+1] == '\n' then 239 else s[i+1])
  assert i + 2 < len(s) && s[i+1] != '\n' ==> fwd(s, '\n', marker(), i+1)[1] == (if s[i+2] == '\n' then 239 else s[i+2])
  assert i + 2 == len(s) && s[i+1] != '\n' ==> len(fwd(s, '\n', marker(), i+1)) == 1
  assert i + 1 == len(s) ==> len(fwd(s, '\n', marker(), i+1)) == 0
  assert i < len(s) && s[i] != '\n' ==> !at(p + fwd(s, '\n', marker(), i), len(p), marker())
  ensures repl(p + fwd(s, '\n', marker(), i), marker(), "\n", len(p)) == s[i:]
lemma code_round_trip(s bytes)
  property C05
  requires forall j int {s[j]} :: 0 <= j < len(s) ==> !(s[j] == 239 && j + 2 < len(s) && s[j+1] == 128 && s[j+2] == 130)
  apply fwd_back(s, '\n', marker(), 0)
  apply code_comes_back(s, "", 0)
  ensures repl(repl1(s, '\n', marker(), len(s)), marker(), "\n", 0) == s

// ------------------------------------------------------------ headings
spec func visibleRunes(a seq[int], n int) int decreases n {
  if n <= 0 then 0 else if a[n-1] == 7 then visibleRunes(a, n-1) else visibleRunes(a, n-1) + 1
}
lemma visible_runes_nonneg(a seq[int], n int)
  decreases n
  apply visible_runes_nonneg(a, n-1) when n > 0
  ensures visibleRunes(a, n) >= 0
  trigger visibleRunes(a, n)
spec func widest(a seq[bytes], n int) int decreases n {
  if n <= 0 then 0 else max(widest(a, n-1), visibleRunes(runesOf(a[n-1]), len(runesOf(a[n-1]))))
}
func runeCount(chars) (count)
  property C08
  internal
  ensures count == visibleRunes(chars, len(chars))
  invariant count == visibleRunes(chars, $i)
func getUnderlineWidth(content, minVal) (r)
  property C08
  ensures r == max(minVal, widest(pieces(content, 10), len(pieces(content, 10))))
  invariant width == widest(pieces(content, 10), $i)
  invariant parts == pieces(content, 10)
func (r *commonmark) setextUnderline(level, width) (u)
  property C08
  internal
  requires width >= 0
  ensures u == rep(if level == 1 then '=' else '-', width)
func (r *commonmark) atxPrefix(level) (p)
  property C08
  internal
  requires level >= 0
  ensures p == rep('#', level)
spec func levelOf(name bytes) int {
  if name == "h1" then 1 else if name == "h2" then 2 else if name == "h3" then 3
  else if name == "h4" then 4 else if name == "h5" then 5 else 6
}
func getHeadingLevel(name) (r)
  property C08
  internal
  ensures r == levelOf(name)
// a # at the end would be taken for the closing sequence
spec func poundKept(s bytes) bytes {
  if s[len(s)-1] == '#' && len(s) >= 2 && s[len(s)-2] == 7 && !(len(s) >= 3 && s[len(s)-3] == '\\') then upd(s, len(s)-2, '\\') else s
}
func escapePoundSignAtEnd(s) (r)
  property C08
  requires len(s) > 0
  ensures kept: r == poundKept(old(s))
spec func setextText(s bytes) bytes {
  let x = trimmed(s) in
  let y = norm(x, len(x)) + pend(x, len(x)) in
  if len(pieces(y, 10)) == 1 then y else keepLines(pieces(y, 10), len(pieces(y, 10)))
}
spec func atxText(s bytes) bytes {
  let x = oneLine(s) in trimmed(squeeze(x, len(x)))
}
axiom blank_spaced(s bytes, c int)
  requires 9 <= c <= 13 || c == 32
  ensures blank(repl1(s, c, " ", len(s))) <==> blank(s)
  trigger repl1(s, c, " ", len(s))
  auto why "bytes.TrimSpace: a space in place of an ASCII white space byte changes no other rune"
axiom blank_squeezed(s bytes)
  ensures blank(squeeze(s, len(s))) <==> blank(s)
  trigger squeeze(s, len(s))
  auto why "bytes.TrimSpace: dropping a space that follows a space changes no other rune"
func (c *commonmark) renderHeading(ctx, w, n) (r)
  property C08
  requires ctx != nil
  modifies w, rendered
  ensures no_text: blank(rendered[len(old(rendered))]) ==> w == old(w) + "\n\n"
  ensures setext: !blank(rendered[len(old(rendered))]) && c.config.HeadingStyle == "setext" && levelOf(old(nodeName(n))) < 3 ==> (let t = setextText(rendered[len(old(rendered))]) in
    w == old(w) + "\n\n" + t + "\n" + rep(if levelOf(old(nodeName(n))) == 1 then '=' else '-', max(3, widest(pieces(t, 10), len(pieces(t, 10))))) + "\n\n")
  ensures atx: !blank(rendered[len(old(rendered))]) && !(c.config.HeadingStyle == "setext" && levelOf(old(nodeName(n))) < 3) ==>
    w == old(w) + "\n\n" + rep('#', levelOf(old(nodeName(n)))) + " " + poundKept(atxText(rendered[len(old(rendered))])) + "\n\n"
  ensures success: r == 1

// headings and inline code stay on one line
lemma one_for_one(s bytes, c int, i int)
  requires 0 <= i <= len(s)
  decreases i
  apply one_for_one(s, c, i-1) when i > 0
  ensures len(repl1(s, c, " ", i)) == i
  ensures forall k int {repl1(s, c, " ", i)[k]} :: 0 <= k < i ==> repl1(s, c, " ", i)[k] == (if s[k] == c then ' ' else s[k])
lemma squeeze_free(s bytes, c int, i int)
  requires 0 <= i <= len(s)
  requires forall k int {s[k]} :: 0 <= k < len(s) ==> s[k] != c
  decreases i
  apply squeeze_free(s, c, i-1) when i > 0
  ensures forall k int {squeeze(s, i)[k]} :: 0 <= k < len(squeeze(s, i)) ==> squeeze(s, i)[k] != c
lemma oneline_free(s bytes)
  apply one_for_one(s, '\n', len(s))
  apply one_for_one(repl1(s, '\n', " ", len(s)), '\r', len(s))
  ensures forall k int {oneLine(s)[k]} :: 0 <= k < len(oneLine(s)) ==> oneLine(s)[k] != '\n' && oneLine(s)[k] != '\r'
lemma atx_heading_on_one_line(s bytes, k int)
  property C08
  requires 0 <= k < len(atxText(s))
  apply oneline_free(s)
  apply squeeze_free(oneLine(s), '\n', len(oneLine(s)))
  apply squeeze_free(oneLine(s), '\r', len(oneLine(s)))
  ensures poundKept(atxText(s))[k] != '\n' && poundKept(atxText(s))[k] != '\r'
lemma spaced_free(s bytes, c int)
  requires c == '\n' || c == '\r'
  requires forall k int {s[k]} :: 0 <= k < len(s) ==> s[k] != c
  apply one_for_one(s, '\n', len(s))
  apply one_for_one(repl1(s, '\n', " ", len(s)), '\t', len(s))
  ensures forall k int {spaced(s)[k]} :: 0 <= k < len(spaced(s)) ==> spaced(s)[k] != c
lemma inline_code_on_one_line(s bytes, k int)
  property C06
  requires 0 <= k < len(inlineCode(s))
  apply oneline_free(s)
  apply spaced_free(oneLine(s), '\n')
  apply spaced_free(oneLine(s), '\r')
  apply squeeze_free(spaced(oneLine(s)), '\n', len(spaced(oneLine(s))))
  apply squeeze_free(spaced(oneLine(s)), '\r', len(spaced(oneLine(s))))
  ensures inlineCode(s)[k] != '\n' && inlineCode(s)[k] != '\r'

// ------------------------------------------------------------ links and images
iface converter.Context.AssembleAbsoluteURL(ctx, element, raw) (r)
  ensures r == absURL(self, element, raw)
spec func absURL(ctx ref, element bytes, raw bytes) bytes
iface converter.Context.WithValue(key, val) (r)
  ensures r != nil
  ensures forall e bytes, u bytes {absURL(r, e, u)} :: absURL(r, e, u) == absURL(self, e, u)

// is the character at i escaped by a backslash before it?
spec func backslashed(s bytes, i int) bool decreases i {
  if i <= 0 then false else s[i-1] == '\\' && !backslashed(s, i-1)
}
spec func altEscaped(s bytes, i int) bytes decreases i {
  if i <= 0 then ""
  else if (s[i-1] == '[' || s[i-1] == ']' || s[i-1] == '`') && !backslashed(s, i-1) then altEscaped(s, i-1) + "\\" + unit(s[i-1])
  else altEscaped(s, i-1) + unit(s[i-1])
}
func escapeAlt(altString) (r)
  property C09
  ensures escaped: r == altEscaped(altString, len(altString)) + (if backslashed(altString, len(altString)) then "\\" else "")
  invariant buf == altEscaped(altString, $i)
  invariant isEscaped == backslashed(altString, $i)
spec func imageAlt(s bytes) bytes {
  let a = oneLine(s) in altEscaped(a, len(a)) + (if backslashed(a, len(a)) then "\\" else "")
}
spec func titleOf(s bytes) bytes {
  if len(s) == 0 then "" else " " + inQuotes(oneLine(s))
}
func (c *commonmark) renderImage(ctx, w, n) (r)
  property C09
  requires ctx != nil && n != nil
  modifies w
  ensures no_address: len(trimmed(attrOr(n.Attr, "src", "", 0))) == 0 ==> w == old(w) && r == 0
  ensures image: len(trimmed(attrOr(n.Attr, "src", "", 0))) > 0 ==> r == 1 &&
    w == old(w) + "![" + imageAlt(attrOr(n.Attr, "alt", "", 0)) + "](" + absURL(ctx, "img", trimmed(attrOr(n.Attr, "src", "", 0))) + titleOf(attrOr(n.Attr, "title", "", 0)) + ")"

spec func linkText(s bytes) bytes {
  let x = trimmed(s) in
  let y = norm(x, len(x)) + pend(x, len(x)) in
  if len(pieces(y, 10)) == 1 then y else keepLines(pieces(y, 10), len(pieces(y, 10)))
}
spec func linkMd(content bytes, href bytes, title bytes) bytes {
  (if blank(content) then "" else content[:trimStart(content)]) + "[" + linkText(content) + "](" + href +
  (if len(href) == 0 then "" else titleOf(title)) + ")" + (if blank(content) then content else content[trimEnd(content):])
}
func (c *commonmark) renderLinkInlined(w, l) (r)
  property C09
  internal
  requires l != nil
  modifies w
  ensures w == old(w) + l.before + "[" + l.content + "](" + l.href + (if len(l.title) == 0 then "" else " " + inQuotes(l.title)) + ")" + l.after
  ensures r == 1
func (c *commonmark) renderLink(ctx, w, n) (r)
  property C09
  requires ctx != nil && n != nil
  requires c.config.LinkStyle == "inlined"
  modifies w, rendered
  ensures no_address: c.config.LinkEmptyHrefBehavior == "skip" && len(absURL(ctx, "a", trimmed(old(attrOr(n.Attr, "href", "", 0))))) == 0 ==> w == old(w) && r == 0
  ensures no_content: !(c.config.LinkEmptyHrefBehavior == "skip" && len(absURL(ctx, "a", trimmed(old(attrOr(n.Attr, "href", "", 0))))) == 0) && c.config.LinkEmptyContentBehavior == "skip" && blank(rendered[len(old(rendered))]) ==> w == old(w) && r == 0
  ensures link: !(c.config.LinkEmptyHrefBehavior == "skip" && len(absURL(ctx, "a", trimmed(old(attrOr(n.Attr, "href", "", 0))))) == 0) && !(c.config.LinkEmptyContentBehavior == "skip" && blank(rendered[len(old(rendered))])) ==>
    r == 1 && w == old(w) + linkMd(rendered[len(old(rendered))], absURL(ctx, "a", trimmed(old(attrOr(n.Attr, "href", "", 0)))), old(attrOr(n.Attr, "title", "", 0)))

// a closing bracket in the text of a link is always escaped
iface converter.Context.Value(key) (r)
  ensures r == ctxValue(self, key)
spec func ctxValue(ctx ref, key int) int
spec func insideLink(ctx ref) bool {
  let v = ctxValue(ctx, boxstr("is_inside_link")) in v != 0 && typeis(v, bool) && unboxbool(v)
}
func (cm commonmark) handleTextTransform(ctx, content) (r)
  property C09
  requires ctx != nil
  ensures in_link: insideLink(ctx) ==> r == repl(content, "\a]", "\\]", 0)
  ensures elsewhere: !insideLink(ctx) ==> r == content

lemma repl1_prefix(a bytes, b bytes, c int, u bytes, i int)
  requires 0 <= i <= len(a)
  decreases i
  apply repl1_prefix(a, b, c, u, i-1) when i > 0
  ensures repl1(a + b, c, u, i) == repl1(a, c, u, i)
lemma repl1_cat(a bytes, b bytes, c int, u bytes, i int)
  requires 0 <= i <= len(b)
  decreases i
  apply repl1_cat(a, b, c, u, i-1) when i > 0
  apply repl1_prefix(a, b, c, u, len(a)) when i == 0
  ensures repl1(a + b, c, u, len(a) + i) == repl1(a, c, u, len(a)) + repl1(b, c, u, i)
lemma backslashed_prefix(a bytes, b bytes, i int)
  requires 0 <= i <= len(a)
  decreases i
  apply backslashed_prefix(a, b, i-1) when i > 0
  ensures backslashed(a + b, i) == backslashed(a, i)
// brackets and backticks in a description are all escaped, and the bracket after it is not
lemma alt_ends(s bytes, i int)
  requires 0 <= i <= len(s)
  decreases i
  apply alt_ends(s, i-1) when i > 0
  apply backslashed_prefix(altEscaped(s, i-1), unit(s[i-1]), len(altEscaped(s, i-1))) when i > 0
  apply backslashed_prefix(altEscaped(s, i-1), "\\" + unit(s[i-1]), len(altEscaped(s, i-1))) when i > 0
  ensures backslashed(altEscaped(s, i), len(altEscaped(s, i))) == backslashed(s, i)
lemma alt_brackets(s bytes, i int, k int)
  property C09
  requires 0 <= i <= len(s)
  requires 0 <= k < len(altEscaped(s, i))
  requires altEscaped(s, i)[k] == '[' || altEscaped(s, i)[k] == ']' || altEscaped(s, i)[k] == '`'
  decreases i
  apply alt_brackets(s, i-1, k) when i > 0 && k < len(altEscaped(s, i-1))
  apply alt_ends(s, i-1) when i > 0
  apply backslashed_prefix(altEscaped(s, i-1), unit(s[i-1]), k) when i > 0 && k <= len(altEscaped(s, i-1))
  apply backslashed_prefix(altEscaped(s, i-1), "\\" + unit(s[i-1]), k) when i > 0 && k <= len(altEscaped(s, i-1))
  apply backslashed_prefix(altEscaped(s, i-1), "\\" + unit(s[i-1]), len(altEscaped(s, i-1))) when i > 0
  ensures backslashed(altEscaped(s, i), k)

// the quotes around a title end where the title ends: a backslash inside is
// doubled, a quote of the same kind inside has a backslash of its own
lemma dbl_ends(s bytes, i int)
  requires 0 <= i <= len(s)
  decreases i
  apply dbl_ends(s, i-1) when i > 0
  apply backslashed_prefix(repl1(s, '\\', "\\\\", i-1), unit(s[i-1]), len(repl1(s, '\\', "\\\\", i-1))) when i > 0
  apply backslashed_prefix(repl1(s, '\\', "\\\\", i-1), "\\\\", len(repl1(s, '\\', "\\\\", i-1))) when i > 0
  assert i > 0 && s[i-1] == '\\' ==> backslashed(repl1(s, '\\', "\\\\", i), len(repl1(s, '\\', "\\\\", i-1)) + 1)
  ensures !backslashed(repl1(s, '\\', "\\\\", i), len(repl1(s, '\\', "\\\\", i)))
lemma dbl_free(s bytes, i int, k int)
  requires 0 <= i <= len(s)
  requires 0 <= k < len(repl1(s, '\\', "\\\\", i))
  requires repl1(s, '\\', "\\\\", i)[k] != '\\'
  decreases i
  apply dbl_free(s, i-1, k) when i > 0 && k < len(repl1(s, '\\', "\\\\", i-1))
  apply dbl_ends(s, i-1) when i > 0
  apply backslashed_prefix(repl1(s, '\\', "\\\\", i-1), unit(s[i-1]), k) when i > 0 && k <= len(repl1(s, '\\', "\\\\", i-1))
  apply backslashed_prefix(repl1(s, '\\', "\\\\", i-1), "\\\\", k) when i > 0 && k <= len(repl1(s, '\\', "\\\\", i-1))
  ensures !backslashed(repl1(s, '\\', "\\\\", i), k)
spec func quoteEsc(d bytes, i int) bytes { repl1(d, '"', "\\\"", i) }
lemma quote_ends(d bytes, i int)
  requires 0 <= i <= len(d)
  decreases i
  apply quote_ends(d, i-1) when i > 0
  apply backslashed_prefix(quoteEsc(d, i-1), unit(d[i-1]), len(quoteEsc(d, i-1))) when i > 0
  ensures backslashed(quoteEsc(d, i), len(quoteEsc(d, i))) == backslashed(d, i)
lemma quote_inside(s bytes, d bytes, i int, k int)
  requires d == repl1(s, '\\', "\\\\", len(s))
  requires 0 <= i <= len(d)
  requires 0 <= k < len(quoteEsc(d, i))
  requires quoteEsc(d, i)[k] == '"'
  decreases i
  apply dbl_free(s, len(s), i-1) when i > 0 && d[i-1] != '\\'
  apply quote_inside(s, d, i-1, k) when i > 0 && k < len(quoteEsc(d, i-1))
  apply quote_ends(d, i-1) when i > 0
  apply backslashed_prefix(quoteEsc(d, i-1), unit(d[i-1]), k) when i > 0 && k <= len(quoteEsc(d, i-1))
  apply backslashed_prefix(quoteEsc(d, i-1), "\\\"", k) when i > 0 && k <= len(quoteEsc(d, i-1))
  apply backslashed_prefix(quoteEsc(d, i-1), "\\\"", len(quoteEsc(d, i-1))) when i > 0
  ensures backslashed(quoteEsc(d, i), k)
lemma backslashed_shift(q int, d bytes, k int)
  requires q != '\\' && 0 <= q < 256 && 0 <= k <= len(d)
  decreases k
  apply backslashed_shift(q, d, k-1) when k > 0
  ensures backslashed(unit(q) + d, k + 1) == backslashed(d, k)
lemma hasbyte_all(s bytes, c int, i int, k int)
  requires 0 <= k < i && i <= len(s)
  requires !hasByte(s, c, i)
  decreases i
  apply hasbyte_all(s, c, i-1, k) when k < i - 1
  ensures s[k] != c
lemma title_ends(s bytes, k int)
  property C09
  requires len(s) > 0
  requires 0 < k < len(inQuotes(s)) - 1
  apply dbl_ends(s, len(s))
  apply dbl_free(s, len(s), k-1) when k - 1 < len(doubled(s)) && doubled(s)[k-1] != '\\'
  apply quote_inside(s, doubled(s), len(doubled(s)), k-1) when k - 1 < len(quoteEsc(doubled(s), len(doubled(s)))) && quoteEsc(doubled(s), len(doubled(s)))[k-1] == '"'
  apply quote_ends(doubled(s), len(doubled(s)))
  apply hasbyte_all(doubled(s), '"', len(doubled(s)), k-1) when k - 1 < len(doubled(s)) && !hasByte(doubled(s), '"', len(doubled(s)))
  apply hasbyte_all(doubled(s), '\'', len(doubled(s)), k-1) when k - 1 < len(doubled(s)) && !hasByte(doubled(s), '\'', len(doubled(s)))
  apply backslashed_shift('"', quoteEsc(doubled(s), len(doubled(s))), k-1) when k - 1 <= len(quoteEsc(doubled(s), len(doubled(s))))
  apply backslashed_shift('"', quoteEsc(doubled(s), len(doubled(s))), len(quoteEsc(doubled(s), len(doubled(s)))))
  apply backslashed_shift('"', doubled(s), len(doubled(s)))
  apply backslashed_shift('\'', doubled(s), len(doubled(s)))
  apply backslashed_prefix("\"" + quoteEsc(doubled(s), len(doubled(s))), "\"", k) when k <= len(quoteEsc(doubled(s), len(doubled(s)))) + 1
  apply backslashed_prefix("\"" + quoteEsc(doubled(s), len(doubled(s))), "\"", len(quoteEsc(doubled(s), len(doubled(s)))) + 1)
  apply backslashed_prefix("\"" + doubled(s), "\"", len(doubled(s)) + 1)
  apply backslashed_prefix("'" + doubled(s), "'", len(doubled(s)) + 1)
  split hasByte(doubled(s), '"', len(doubled(s)))
  split hasByte(doubled(s), '\'', len(doubled(s)))
  ensures opens: inQuotes(s)[0] == '"' || inQuotes(s)[0] == '\''
  ensures closes: inQuotes(s)[len(inQuotes(s))-1] == inQuotes(s)[0] && !backslashed(inQuotes(s), len(inQuotes(s)) - 1)
  ensures inside: inQuotes(s)[k] == inQuotes(s)[0] ==> backslashed(inQuotes(s), k)
