// Which element gets which renderer.
package plugin/commonmark

func (c *commonmark) renderComment(ctx, w, n) (r)
  property C11, C24
  requires n != nil
  modifies w
  ensures list_end: n.Data == "THE END" ==> r == 1 && len(w) >= len(old(w)) + 4 && w[:len(old(w)) + 2] == old(w) + "\n\n" && w[len(w)-2:] == "\n\n"
  ensures other_comments: n.Data != "THE END" ==> r == 0 && w == old(w)

func (c *commonmark) handleRender(ctx, w, n) (r)
  requires ctx != nil && n != nil
  requires c.config.LinkStyle == "inlined"
  requires len(c.config.CodeBlockFence) > 0 && c.config.CodeBlockFence[0] < 128
  modifies w, rendered
  ensures strong: {C07} (old(nodeName(n)) == "strong" || old(nodeName(n)) == "b") ==> r == 1 && w == old(w) + delimLines(pieces(rendered[len(old(rendered))], 10), c.config.StrongDelimiter, len(pieces(rendered[len(old(rendered))], 10)))
  ensures em: {C07} (old(nodeName(n)) == "em" || old(nodeName(n)) == "i") ==> r == 1 && w == old(w) + delimLines(pieces(rendered[len(old(rendered))], 10), c.config.EmDelimiter, len(pieces(rendered[len(old(rendered))], 10)))
  ensures rule: {C27} old(nodeName(n)) == "hr" ==> r == 1 && w == old(w) + "\n\n" + c.config.HorizontalRule + "\n\n"
  ensures hard_break: {C27} old(nodeName(n)) == "br" ==> r == 1 && w == old(w) + "  \n"
  ensures list: {C11} old(nodeName(n)) == "ul" || old(nodeName(n)) == "ol" ==> r == 1 && (let ks = kept(rendered, len(old(rendered)), len(rendered)) in
    w == (if len(ks) == 0 then old(w) + "\n\n" else old(w) + "\n\n" + listItems(ctx, c.config.BulletListMarker, n, ks, len(ks)) + "\n\n"))
  ensures code_block: {C04, C05} old(nodeName(n)) == "pre" ==> r == 1 && (let s = chomp(codeText(n)) in let f = c.config.CodeBlockFence[0] in
    w == old(w) + "\n\n" + fenceFor(f, s) + (if hasByte(codeInfo(n), f, len(codeInfo(n))) then "" else codeInfo(n)) + "\n" + repl1(s, '\n', marker(), len(s)) + "\n" + fenceFor(f, s) + "\n\n")
  ensures inline_code: {C06} old(nodeName(n)) == "code" || old(nodeName(n)) == "var" || old(nodeName(n)) == "samp" || old(nodeName(n)) == "kbd" || old(nodeName(n)) == "tt" ==> r == 1 &&
    (if blank(oneLine(codeText(n))) then w == old(w) + "`" + oneLine(codeText(n)) + "`"
     else (let s = inlineCode(codeText(n)) in w == old(w) + rep('`', maxrun(s, '`', len(s)) + 1) + padded(s) + rep('`', maxrun(s, '`', len(s)) + 1)))
  ensures quote: {C12} old(nodeName(n)) == "blockquote" ==> r == 1 && w == (if blank(rendered[len(old(rendered))]) then old(w) + "\n\n" else old(w) + "\n\n" + quoted(ctx, rendered[len(old(rendered))]) + "\n\n")
  ensures heading: {C08} old(nodeName(n)) == "h1" || old(nodeName(n)) == "h2" || old(nodeName(n)) == "h3" || old(nodeName(n)) == "h4" || old(nodeName(n)) == "h5" || old(nodeName(n)) == "h6" ==> r == 1 &&
    (if blank(rendered[len(old(rendered))]) then w == old(w) + "\n\n"
     else if c.config.HeadingStyle == "setext" && levelOf(old(nodeName(n))) < 3 then
       (let t = setextText(rendered[len(old(rendered))]) in w == old(w) + "\n\n" + t + "\n" + rep(if levelOf(old(nodeName(n))) == 1 then '=' else '-', max(3, widest(pieces(t, 10), len(pieces(t, 10))))) + "\n\n")
     else w == old(w) + "\n\n" + rep('#', levelOf(old(nodeName(n)))) + " " + poundKept(atxText(rendered[len(old(rendered))])) + "\n\n")
  ensures image: {C09} old(nodeName(n)) == "img" && len(trimmed(old(attrOr(n.Attr, "src", "", 0)))) > 0 ==> r == 1 &&
    w == old(w) + "![" + imageAlt(old(attrOr(n.Attr, "alt", "", 0))) + "](" + absURL(ctx, "img", trimmed(old(attrOr(n.Attr, "src", "", 0)))) + titleOf(old(attrOr(n.Attr, "title", "", 0))) + ")"
  ensures link: {C09} old(nodeName(n)) == "a" && len(absURL(ctx, "a", trimmed(old(attrOr(n.Attr, "href", "", 0))))) > 0 && !blank(rendered[len(old(rendered))]) ==> r == 1 &&
    w == old(w) + linkMd(rendered[len(old(rendered))], absURL(ctx, "a", trimmed(old(attrOr(n.Attr, "href", "", 0)))), old(attrOr(n.Attr, "title", "", 0)))
  ensures unknown: {C27} (let k = old(nodeName(n)) in k != "strong" && k != "b" && k != "em" && k != "i" && k != "hr" && k != "br" && k != "ul" && k != "ol" && k != "pre" && k != "code" && k != "var" && k != "samp" && k != "kbd" && k != "tt"
    && k != "blockquote" && k != "h1" && k != "h2" && k != "h3" && k != "h4" && k != "h5" && k != "h6" && k != "img" && k != "a" && k != "#comment") ==> r == 0 && w == old(w)

package plugin/strikethrough
func nameIsStrikethough(node) (r)
  property C07
  internal
  ensures r == (nodeName(node) == "del" || nodeName(node) == "s" || nodeName(node) == "strike")
func nameIsBothStrikethough(a, b) (r)
  property C07
  internal
  ensures r == ((nodeName(a) == "del" || nodeName(a) == "s" || nodeName(a) == "strike") && (nodeName(b) == "del" || nodeName(b) == "s" || nodeName(b) == "strike"))
func (s strikethroughPlugin) handleRender(ctx, w, n) (r)
  property C07
  requires ctx != nil
  modifies w, rendered
  ensures every_line: old(nodeName(n)) == "del" || old(nodeName(n)) == "s" || old(nodeName(n)) == "strike" ==> r == 1 && w == old(w) + delimLines(pieces(rendered[len(old(rendered))], 10), s.delimiter, len(pieces(rendered[len(old(rendered))], 10)))
  ensures others: old(nodeName(n)) != "del" && old(nodeName(n)) != "s" && old(nodeName(n)) != "strike" ==> r == 0 && w == old(w)
func (s *strikethroughPlugin) handleUnEscapers(chars, index) (r)
  property C03
  requires 0 <= index < len(chars)
  ensures fires: r == (if chars[index] == '~' && opensEmphasis(chars, index) then 1 else 0-1)
