package collapse

// ---- white space of one text -------------------------------------------------

spec func isWs(c int) bool { c == ' ' || c == 13 || c == 10 || c == 9 }

// s[:k] with every run of white space as one space
spec func wsc(s bytes, k int) bytes decreases k {
  if k <= 0 then ""
  else if isWs(s[k-1]) then (if k >= 2 && isWs(s[k-2]) then wsc(s, k-1) else wsc(s, k-1) + " ")
  else wsc(s, k-1) + s[k-1:k]
}

func byteSliceToString(b) (r)
  trusted
  ensures r == b

func replaceAnyWhitespaceWithSpace(source) (r)
  property C16, C01
  ensures each_run_one_space: r == wsc(source, len(source))
  invariant 0 <= startNormal && startNormal <= i && i <= len(source)
  invariant isnil(ret) ==> startNormal == 0
  invariant startNormal == 0 ==> isnil(ret)
  invariant startMatch == 0-1 || (startNormal <= startMatch && 0 <= startMatch && startMatch < i)
  invariant startMatch == 0-1 ==> i == 0 || !isWs(source[i-1])
  invariant startMatch >= 0 ==> (startMatch == 0 || !isWs(source[startMatch-1])) && (forall j int {source[j]} :: startMatch <= j && j < i ==> isWs(source[j]))
  invariant startMatch >= 0 ==> wsc(source, i) == wsc(source, startMatch) + " "
  invariant wsc(source, if startMatch == 0-1 then i else startMatch) == ret + source[startNormal:(if startMatch == 0-1 then i else startMatch)]

// ---- what collapsing does to a text -----------------------------------------

// the bytes of s[:k] that are not white space
spec func inked(s bytes, k int) bytes decreases k {
  if k <= 0 then "" else if isWs(s[k-1]) then inked(s, k-1) else inked(s, k-1) + s[k-1:k]
}
spec func words(s bytes) bytes opaque { inked(s, len(s)) }
spec func onlySingle(s bytes) bool opaque { forall j int {s[j]} :: 0 <= j && j < len(s) && isWs(s[j]) ==> s[j] == ' ' && (j + 1 < len(s) ==> !isWs(s[j+1])) }

lemma inked_cut(s bytes, n int, k int)
  requires 0 <= k && k <= n && n <= len(s)
  ensures inked(s[:n], k) == inked(s, k)
  decreases k
  apply inked_cut(s, n, k-1) when k >= 1
lemma inked_drop(s bytes, k int)
  requires 1 <= k && k <= len(s)
  ensures inked(s, k) == inked(s, 1) + inked(s[1:], k-1)
  decreases k
  apply inked_drop(s, k-1) when k >= 2
lemma inked_snoc(a bytes, c bytes)
  requires len(c) == 1
  ensures words(a + c) == (if isWs(c[0]) then words(a) else words(a) + c)
  apply inked_cut(a + c, len(a), len(a))
  assert (a + c)[:len(a)] == a
  assert (a + c)[len(a)] == c[0]
  assert (a + c)[len(a):len(a)+1] == c
  assert inked(a + c, len(a)+1) == (if isWs(c[0]) then inked(a + c, len(a)) else inked(a + c, len(a)) + (a + c)[len(a):len(a)+1])
lemma wsc_words(s bytes, k int)
  requires 0 <= k && k <= len(s)
  ensures words(wsc(s, k)) == inked(s, k)
  decreases k
  apply wsc_words(s, k-1) when k >= 1
  apply inked_snoc(wsc(s, k-1), s[k-1:k]) when k >= 1
  apply inked_snoc(wsc(s, k-1), " ") when k >= 1
lemma wsc_single(s bytes, k int)
  requires 0 <= k && k <= len(s)
  ensures onlySingle(wsc(s, k))
  ensures k >= 1 ==> len(wsc(s, k)) >= 1 && isWs(wsc(s, k)[len(wsc(s, k))-1]) == isWs(s[k-1])
  decreases k
  apply wsc_single(s, k-1) when k >= 1
lemma trim_left_words(s bytes)
  trigger words(s[1:])
  requires len(s) >= 1 && s[0] == ' '
  ensures words(s[1:]) == words(s)
  apply inked_drop(s, len(s))
lemma trim_right_words(s bytes)
  trigger words(s[:len(s)-1])
  requires len(s) >= 1 && s[len(s)-1] == ' '
  ensures words(s[:len(s)-1]) == words(s)
  apply inked_cut(s, len(s)-1, len(s)-1)
lemma wsc_all(s bytes)
  trigger wsc(s, len(s))
  ensures words(wsc(s, len(s))) == words(s) && onlySingle(wsc(s, len(s)))
  apply wsc_words(s, len(s))
  apply wsc_single(s, len(s))
lemma single_tail(s bytes)
  trigger s[1:]
  requires len(s) >= 1 && onlySingle(s)
  ensures onlySingle(s[1:])
lemma single_head(s bytes)
  trigger s[:len(s)-1]
  requires len(s) >= 1 && onlySingle(s)
  ensures onlySingle(s[:len(s)-1])

// ---- moving through the tree -------------------------------------------------

// The answers of the three questions about a node do not change while white
// space is collapsed (only the data of text nodes changes).
spec func blockNode(n *html.Node) bool
spec func voidNode(n *html.Node) bool
spec func keptNode(n *html.Node) bool
functype collapse.DomFuncs.IsBlockNode(node) (r)
  requires node != nil
  ensures r == blockNode(node)
functype collapse.DomFuncs.IsVoidNode(node) (r)
  requires node != nil
  ensures r == voidNode(node)
functype collapse.DomFuncs.IsPreformattedNode(node) (r)
  requires node != nil
  ensures r == keptNode(node)

func nextNode(prev, current, domFuncs) (r)
  internal
  requires current != nil && domFuncs != nil && domFuncs.IsPreformattedNode != nil
  ensures r == (if (prev != nil && prev.Parent == current) || keptNode(current) || current.FirstChild == nil
                then (if current.NextSibling != nil then current.NextSibling else current.Parent) else current.FirstChild)

package html
func (n *Node) RemoveChild(c)
  requires n != nil && c != nil && c.Parent == n
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures forall m *html.Node {m.Parent} :: m.Parent == (if m == c then nil else old(m.Parent))
  ensures c.NextSibling == nil && c.PrevSibling == nil
  ensures old(c.NextSibling != c && c.PrevSibling != c) ==> forall m *html.Node {m.NextSibling} :: m != nil ==> m.NextSibling == (if m == c then nil else if m == old(c.PrevSibling) then old(c.NextSibling) else old(m.NextSibling))
  ensures old(c.NextSibling != c && c.PrevSibling != c) ==> forall m *html.Node {m.PrevSibling} :: m != nil ==> m.PrevSibling == (if m == c then nil else if m == old(c.NextSibling) then old(c.PrevSibling) else old(m.PrevSibling))
  ensures forall m *html.Node {m.FirstChild} :: m.FirstChild == (if m == n && old(n.FirstChild) == c then old(c.NextSibling) else old(m.FirstChild))
func (n *Node) InsertBefore(newChild, oldChild)
  requires n != nil && newChild != nil && newChild.Parent == nil && newChild.PrevSibling == nil && newChild.NextSibling == nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures forall m *html.Node {m.Parent} :: m.Parent == (if m == newChild then n else old(m.Parent))
  ensures newChild.NextSibling == oldChild
  ensures forall m *html.Node {m.FirstChild} :: m.FirstChild == old(m.FirstChild) || m.FirstChild == newChild
  ensures forall m *html.Node {m.NextSibling} :: m == newChild || m.NextSibling == old(m.NextSibling) || m.NextSibling == newChild
func (n *Node) AppendChild(c)
  requires n != nil && c != nil && c.Parent == nil && c.PrevSibling == nil && c.NextSibling == nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures forall m *html.Node {m.Parent} :: m.Parent == (if m == c then n else old(m.Parent))
package collapse
func removeNode(node) (r)
  internal
  requires node != nil && node.Parent != nil && node.NextSibling != node && node.PrevSibling != node
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures r == (if old(node.NextSibling) != nil then old(node.NextSibling) else old(node.Parent))
  ensures forall m *html.Node {m.Parent} :: m.Parent == (if m == node then nil else old(m.Parent))
  ensures forall m *html.Node {m.NextSibling} :: m != nil ==> m.NextSibling == (if m == node then nil else if m == old(node.PrevSibling) then old(node.NextSibling) else old(m.NextSibling))
  ensures forall m *html.Node {m.PrevSibling} :: m != nil ==> m.PrevSibling == (if m == node then nil else if m == old(node.NextSibling) then old(node.PrevSibling) else old(m.PrevSibling))
  ensures forall m *html.Node {m.FirstChild} :: m.FirstChild == (if m == old(node.Parent) && old(old(node.Parent).FirstChild) == node then old(node.NextSibling) else old(m.FirstChild))

func fillDefaultDomFuncs(domFuncs) (r)
  internal
  modifies collapse.DomFuncs.IsBlockNode, collapse.DomFuncs.IsVoidNode, collapse.DomFuncs.IsPreformattedNode
  ensures r != nil && r.IsBlockNode != nil && r.IsVoidNode != nil && r.IsPreformattedNode != nil
  ensures domFuncs != nil ==> r == domFuncs
  ensures domFuncs != nil && old(domFuncs.IsBlockNode) != nil ==> r.IsBlockNode == old(domFuncs.IsBlockNode)
  ensures domFuncs != nil && old(domFuncs.IsVoidNode) != nil ==> r.IsVoidNode == old(domFuncs.IsVoidNode)
  ensures domFuncs != nil && old(domFuncs.IsPreformattedNode) != nil ==> r.IsPreformattedNode == old(domFuncs.IsPreformattedNode)

// The shape of a tree: what html.Parse builds and RemoveChild keeps.
// under(n): n is a node below the element that is collapsed; inKept(n): one of
// the nodes between them is preformatted; first(n)/last(n): where the node
// begins and ends in the document.
spec func under(n *html.Node) bool
spec func textBelow(n *html.Node) bool
spec func inKept(n *html.Node) bool
spec func first(n *html.Node) int
spec func last(n *html.Node) int
// where the walk is: at the beginning of a node, or at its end
spec func place(prev *html.Node, node *html.Node, parentOfPrev *html.Node, fc *html.Node) int {
  if (prev != nil && parentOfPrev == node) || fc == nil || keptNode(node) then last(node) else first(node)
}

func Collapse(element, domFuncs)
  use wsc_all, trim_left_words, trim_right_words, single_tail, single_head
  property C16, C01
  requires element != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild, html.Node.Data, collapse.DomFuncs.IsBlockNode, collapse.DomFuncs.IsVoidNode, collapse.DomFuncs.IsPreformattedNode
  ensures words_kept: forall n *html.Node {n.Data} :: words(n.Data) == words(old(n.Data))
  ensures only_texts_change: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || textBelow(n) && !inKept(n)
  ensures only_white_space_removed: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || (n.Parent == nil && under(n) && !inKept(n) && (n.Type == 1 && words(n.Data) == "" || n.Type != 1 && n.Type != 3 && n.Type != 4))
  ensures one_space_only: !keptNode(element) ==> (forall x *html.Node {textBelow(x)} :: textBelow(x) && !inKept(x) && x.Parent != nil ==> onlySingle(x.Data))
  // links between nodes
  given forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  given forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent == n.Parent && n.Parent != nil && last(n) < first(n.NextSibling)
  given forall n *html.Node {n.PrevSibling} :: n != nil && n.PrevSibling != nil ==> n.PrevSibling.Parent == n.Parent && n.Parent != nil && last(n.PrevSibling) < first(n)
  given forall n *html.Node, m *html.Node {n.NextSibling, m.PrevSibling} :: n != nil && m != nil ==> (n.NextSibling == m <==> m.PrevSibling == n)
  given forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.PrevSibling == nil
  given forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil && n.PrevSibling == nil ==> n.Parent.FirstChild == n
  given forall n *html.Node {first(n)} {last(n)} :: first(n) <= last(n)
  given forall n *html.Node {last(n)} :: under(n) ==> last(n) < last(element)
  given forall n *html.Node {n.Parent} :: under(n) ==> first(n.Parent) < first(n) && last(n) < last(n.Parent)
  given forall n *html.Node {textBelow(n)} :: textBelow(n) <==> under(n) && n.Type == 1
  given forall n *html.Node {first(n)} :: under(n) ==> first(n) > first(element) && (n.Type != 3 ==> first(n) == last(n))
  // which nodes are below the element
  given !under(element) && !under(nil)
  given forall n *html.Node {n.Parent} :: n != nil && n.Parent == element ==> under(n)
  given forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil && under(n.Parent) ==> under(n)
  given forall n *html.Node {n.Parent} :: under(n) ==> n.Parent != nil && (n.Parent == element || under(n.Parent) && n.Parent.Type == 3)
  given forall n *html.Node {n.FirstChild} :: under(n) && n.Type != 3 ==> n.FirstChild == nil
  given forall n *html.Node {inKept(n), n.Parent} :: n != nil && n.Parent == element ==> !inKept(n)
  given forall n *html.Node {inKept(n), n.Parent} :: under(n) && n.Parent != element ==> (inKept(n) <==> keptNode(n.Parent) || inKept(n.Parent))
  given forall n *html.Node, x *html.Node {n.FirstChild, textBelow(x)} :: n != nil && (n == element || under(n)) && textBelow(x) && x.Parent != nil && first(x) > first(n) ==> (if n.FirstChild != nil then first(x) >= first(n.FirstChild) else first(x) > last(n))
  given forall n *html.Node, x *html.Node {n.NextSibling, textBelow(x)} :: under(n) && n.Parent != nil && textBelow(x) && x.Parent != nil && first(x) > last(n) ==> (if n.NextSibling != nil then first(x) >= first(n.NextSibling) else first(x) > last(n.Parent))
  given forall n *html.Node, x *html.Node {keptNode(n), textBelow(x)} :: under(n) && keptNode(n) && textBelow(x) && first(x) > first(n) && first(x) <= last(n) ==> inKept(x)
  given forall n *html.Node, x *html.Node {first(n), textBelow(x)} {last(n), textBelow(x)} :: under(n) && textBelow(x) && (first(n) == first(x) || last(n) == first(x)) ==> n == x
  invariant domFuncs != nil && domFuncs.IsBlockNode != nil && domFuncs.IsVoidNode != nil && domFuncs.IsPreformattedNode != nil
  // links
  invariant forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  invariant forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent == n.Parent && n.Parent != nil && last(n) < first(n.NextSibling)
  invariant forall n *html.Node {n.PrevSibling} :: n != nil && n.PrevSibling != nil ==> n.PrevSibling.Parent == n.Parent && n.Parent != nil && last(n.PrevSibling) < first(n)
  invariant forall n *html.Node, m *html.Node {n.NextSibling, m.PrevSibling} :: n != nil && m != nil ==> (n.NextSibling == m <==> m.PrevSibling == n)
  invariant forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.PrevSibling == nil
  invariant forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil && n.PrevSibling == nil ==> n.Parent.FirstChild == n
  invariant forall n *html.Node, x *html.Node {n.FirstChild, textBelow(x)} :: n != nil && (n == element || under(n)) && textBelow(x) && x.Parent != nil && first(x) > first(n) ==> (if n.FirstChild != nil then first(x) >= first(n.FirstChild) else first(x) > last(n))
  invariant forall n *html.Node, x *html.Node {n.NextSibling, textBelow(x)} :: under(n) && n.Parent != nil && textBelow(x) && x.Parent != nil && first(x) > last(n) ==> (if n.NextSibling != nil then first(x) >= first(n.NextSibling) else first(x) > last(n.Parent))
  // what is removed
  invariant forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || (n.Parent == nil && under(n) && !inKept(n) && (n.Type == 1 && words(n.Data) == "" || n.Type != 1 && n.Type != 3 && n.Type != 4))
  // the texts
  invariant forall n *html.Node {n.Data} :: n.Data == old(n.Data) || (n.Type == 1 && under(n) && !inKept(n) && words(n.Data) == words(old(n.Data)))
  // the walk
  invariant node == element || (under(node) && !inKept(node) && node.Parent != nil)
  invariant prevText != nil ==> prevText.Type == 1 && under(prevText) && !inKept(prevText)
  invariant node.Type != 3 && node != element ==> node.PrevSibling == nil || (prev != nil && prev.Parent == node.Parent)
  invariant prev != nil && prev == node ==> node.Type == 3 || node == element
  invariant prev != nil ==> (prev == element || under(prev)) && first(prev) <= place(prev, node, prev.Parent, node.FirstChild)
  invariant prevText != nil ==> prevText.Parent != nil && last(prevText) < place(prev, node, prev.Parent, node.FirstChild)
  invariant forall x *html.Node {textBelow(x)} :: textBelow(x) && !inKept(x) && x.Parent != nil && first(x) < place(prev, node, prev.Parent, node.FirstChild) ==> onlySingle(x.Data)
  invariant node == element ==> (prev != nil && prev.Parent == element) || element.FirstChild == nil
  decreases last(element) + 1 - place(prev, node, prev.Parent, node.FirstChild)

package dom
spec func blockName(name bytes) bool {
  name == "address" || name == "article" || name == "aside" || name == "blockquote" || name == "details" || name == "dialog" || name == "dd" || name == "div" || name == "dl" || name == "dt" || name == "fieldset" || name == "figcaption" || name == "figure" || name == "footer" || name == "form" || name == "h1" || name == "h2" || name == "h3" || name == "h4" || name == "h5" || name == "h6" || name == "header" || name == "hgroup" || name == "hr" || name == "li" || name == "main" || name == "nav" || name == "ol" || name == "p" || name == "pre" || name == "section" || name == "table" || name == "ul"
}
func NameIsBlockNode(name) (r)
  internal
  ensures r == blockName(name)
package plugin/base
// what ends a line of text: what the tag types say, else the names of the
// block elements
func (b *base) preRenderCollapse$1(node) (r)
  property C16
  requires ctx != nil && node != nil
  ensures tag_types_first: r == (if tagTypeKnown(ctx, nodeName(node)) then tagTypeOf(ctx, nodeName(node)) == "block" else blockName(nodeName(node)))
func (b *base) preRenderCollapse(ctx, doc)
  property C16, C01
  requires ctx != nil && doc != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild, html.Node.Data, collapse.DomFuncs.IsBlockNode, collapse.DomFuncs.IsVoidNode, collapse.DomFuncs.IsPreformattedNode
  ensures words_kept: forall n *html.Node {n.Data} :: words(n.Data) == words(old(n.Data))
  ensures only_texts_change: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || textBelow(n) && !inKept(n)
  ensures one_space_only: !keptNode(doc) ==> (forall x *html.Node {textBelow(x)} :: textBelow(x) && !inKept(x) && x.Parent != nil ==> onlySingle(x.Data))
