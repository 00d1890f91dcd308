package dom

// The name of a node, as the renderers see it.
spec func nodeName(n *html.Node) bytes {
  if n == nil then ""
  else if n.Type == 0 then "#error"
  else if n.Type == 1 then "#text"
  else if n.Type == 2 then "#document"
  else if n.Type == 3 then n.Data
  else if n.Type == 4 then "#comment"
  else if n.Type == 5 then n.Data
  else ""
}
func NodeName(node) (r)
  internal
  ensures r == nodeName(node)

// the value of the first attribute with the name key, or def
spec func attrOr(a html.Node.Attr, key bytes, def bytes, k int) bytes decreases len(a) - k {
  if k < 0 || k >= len(a) then def
  else if a[k].Key == key then a[k].Val
  else attrOr(a, key, def, k+1)
}
spec func hasAttr(a html.Node.Attr, key bytes, k int) bool decreases len(a) - k {
  if k < 0 || k >= len(a) then false else a[k].Key == key || hasAttr(a, key, k+1)
}
func GetAttribute(node, key) (r, ok)
  internal
  requires node != nil
  ensures ok == hasAttr(node.Attr, key, 0)
  ensures r == attrOr(node.Attr, key, "", 0)
  ensures forall d bytes {attrOr(node.Attr, key, d, 0)} :: attrOr(node.Attr, key, d, 0) == (if ok then r else d)
  invariant hasAttr(node.Attr, key, $i) == hasAttr(node.Attr, key, 0)
  invariant forall d bytes {attrOr(node.Attr, key, d, 0)} {attrOr(node.Attr, key, d, $i)} :: attrOr(node.Attr, key, d, 0) == attrOr(node.Attr, key, d, $i)
func GetAttributeOr(node, key, fallback) (r)
  internal
  requires node != nil
  ensures r == attrOr(node.Attr, key, fallback, 0)
  invariant attrOr(node.Attr, key, fallback, 0) == attrOr(node.Attr, key, fallback, $i)
// where a child is among the children
spec func kidPos(r seq[*html.Node], n *html.Node) int
func AllChildNodes(node) (r)
  property C23
  requires node != nil
  given forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  given forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent == n.Parent
  ensures children: forall k int {r[k]} :: 0 <= k && k < len(r) ==> r[k] != nil && r[k].Parent == node
  assumes exist: forall k int {r[k]} :: 0 <= k && k < len(r) ==> allocated(r[k])
  assumes each_once: forall k int {r[k]} :: 0 <= k && k < len(r) ==> kidPos(r, r[k]) == k
  assumes all_of_them: forall n *html.Node {n.Parent} {kidPos(r, n)} :: n != nil && n.Parent == node ==> 0 <= kidPos(r, n) && kidPos(r, n) < len(r) && r[kidPos(r, n)] == n
  invariant child != nil ==> child.Parent == node
  invariant forall k int {children[k]} :: 0 <= k && k < len(children) ==> children[k] != nil && children[k].Parent == node
