// The base plugin.
package plugin/base

// what the context makes of a text
spec func escapedBy(ctx ref, content bytes) bytes
spec func unescapedBy(ctx ref, content bytes) bytes
iface converter.Context.EscapeContent(content) (r)
  ensures r == escapedBy(self, content)
iface converter.Context.UnEscapeContent(content) (r)
  ensures r == unescapedBy(self, content)
  ensures barsEscaped(content, len(content)) ==> barsEscaped(r, len(r))

// a literal < or > never stays
func (b *base) handleTextTransform(ctx, content) (r)
  property C01
  requires ctx != nil
  ensures angle_brackets: r == escapedBy(ctx, repl1(repl1(content, '<', "&lt;", len(content)), '>', "&gt;", len(repl1(content, '<', "&lt;", len(content)))))

func (b *base) postRenderTrimContent(ctx, result) (r)
  property C13
  ensures at_most_two: nlok(r, len(r))
  ensures nothing_lost: visible(r, len(r)) == visible(trimmed(result), len(trimmed(result)))

func (b *base) postRenderUnescapeContent(ctx, result) (r)
  property C01
  requires ctx != nil
  ensures unescaped: r == unescapedBy(ctx, result)

func RenderAsHTMLWrapper(ctx, w, node) (r)
  property C27
  requires ctx != nil && node != nil
  modifies w, rendered
  ensures wrapped: w == old(w) + "<" + old(nodeName(node)) + ">\n\n" + rendered[len(old(rendered))] + "\n\n</" + old(nodeName(node)) + ">"
  ensures success: r == 1
func RenderAsPlaintextWrapper(ctx, w, node) (r)
  property C27
  requires ctx != nil && node != nil
  modifies w, rendered
  ensures block: tagTypeOf(ctx, old(nodeName(node))) == "block" ==> w == old(w) + "\n\n" + rendered[len(old(rendered))] + "\n\n"
  ensures transparent: tagTypeOf(ctx, old(nodeName(node))) != "block" ==> w == old(w) + rendered[len(old(rendered))]
  ensures success: r == 1
spec func htmlOf(n ref) bytes
extern html.Render(w, n) (err)
  modifies w
  ensures len(w) >= len(old(w)) && w[:len(old(w))] == old(w)
func RenderAsHTML(ctx, w, node) (r)
  property C27
  requires ctx != nil && node != nil
  modifies w
  ensures kept: len(w) >= len(old(w)) && w[:len(old(w))] == old(w)
  ensures block: tagTypeOf(ctx, old(nodeName(node))) == "block" ==> len(w) >= len(old(w)) + 4 && w[len(old(w)):len(old(w))+2] == "\n\n" && w[len(w)-2:] == "\n\n"
  ensures success: r == 1
