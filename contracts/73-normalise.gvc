// The steps that normalise the tree before it is rendered. A text is lost when
// it, or a node above it, loses its parent, or when its data changes.

package dom
func GetNextNeighborNode(node) (r)
  internal
  requires node != nil
  invariant node != nil
func GetNextNeighborElement(node) (r)
  internal
  requires node != nil
  assumes has_parent: r != nil ==> r.Parent != nil
  invariant node != nil
func GetPrevNeighborNode(node) (r)
  internal
  requires node != nil
  invariant node != nil
func GetNextNeighborNodeExcludingOwnChild(node) (r)
  internal
  requires node != nil
  ensures r != nil ==> node.NextSibling != nil || node.Parent != nil
  invariant node != nil && (node == old(node) || old(node).Parent != nil)
func GetPrevNeighborNodeExcludingOwnChild(node) (r)
  internal
  requires node != nil
  invariant node != nil

package internal/domutils
// where a node begins in the document
spec func posn(n *html.Node) int

// ---- what the steps may ask about a node ----------------------------------------

functype internal/domutils.SwapTags.isOuterNode(node) (r)
  requires node != nil
  ensures r ==> node.Type == 3 || node.Type == 5
functype internal/domutils.SwapTags.isInnerNode(node) (r)
  requires node != nil
  ensures r ==> node.Type == 3 || node.Type == 5
functype internal/domutils.AddSpace.isOuterNode(node) (r)
  requires node != nil
functype internal/domutils.AddSpace.isInnerNode(node) (r)
  requires node != nil
functype internal/domutils.getFirstChildNode.matchFn(node) (r)
  requires node != nil
functype internal/domutils.getLastChildNode.matchFn(node) (r)
  requires node != nil
functype internal/domutils.MergeAdjacent.matchFn(node) (r)
  requires node != nil
  ensures r ==> node.Type == 3 || node.Type == 5
functype internal/domutils.collectAdjacentNodes.matchFn(node) (r)
  requires node != nil
  ensures r ==> node.Type == 3 || node.Type == 5
functype internal/domutils.RemoveRedundant.matchFn(node, other) (r)
  requires node != nil && other != nil
  ensures r ==> node.Type == 3 || node.Type == 5
functype internal/domutils.hasSameTypeAncestor.matchFn(node, other) (r)
  requires node != nil && other != nil
  ensures r ==> node.Type == 3 || node.Type == 5

// ---- span with blocks in it ------------------------------------------------------

func isFakeSpan$1(node)
  property C23
  requires node != nil
  modifies containsBlockNode
  ensures stays_found: old(containsBlockNode) ==> containsBlockNode
  ensures found_here: blockName(nodeName(node)) ==> containsBlockNode
  invariant old(containsBlockNode) ==> containsBlockNode
func isFakeSpan(node) (r)
  property C23
  requires node != nil
  ensures only_spans: r ==> (node.Type == 3 || node.Type == 5) && node.Data == "span"
func RenameFakeSpans$1(node)
  property C23
  requires node != nil
  modifies html.Node.Data
  ensures only_spans_become_div: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || (n.Type == 3 || n.Type == 5) && old(n.Data) == "span" && n.Data == "div"
  invariant forall n *html.Node {n.Data} :: n.Data == old(n.Data) || (n.Type == 3 || n.Type == 5) && old(n.Data) == "span" && n.Data == "div"
func RenameFakeSpans(ctx, doc)
  property C23
  requires doc != nil
  modifies html.Node.Data
  ensures only_spans_become_div: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || (n.Type == 3 || n.Type == 5) && old(n.Data) == "span" && n.Data == "div"

// ---- code around pre and so on: the tags change places ---------------------------

func swapTagsOfNodes(node1, node2)
  property C23
  requires node1 != nil && node2 != nil && node1.Type == 3 && node2.Type == 3
  modifies html.Node.Data, html.Node.DataAtom, html.Node.Attr
  ensures swapped: node1.Data == old(node2.Data) && node2.Data == old(node1.Data)
  ensures swapped_atoms: node1.DataAtom == old(node2.DataAtom) && node2.DataAtom == old(node1.DataAtom)
  ensures swapped_attributes: node1.Attr == old(node2.Attr) && node2.Attr == old(node1.Attr)
  ensures others_kept: forall n *html.Node {n.Data} :: n == node1 || n == node2 || n.Data == old(n.Data)
func isEmptyText(node) (r)
  internal
  requires node != nil
  ensures r ==> node.Type == 1
func SwapTags$1(node)
  property C23
  requires node != nil && isOuterNode != nil && isInnerNode != nil
  modifies html.Node.Data, html.Node.DataAtom, html.Node.Attr
  given forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil ==> n.Parent.Type != 5
  given forall n *html.Node {n.Type} :: n != nil && n.Type == 5 ==> n.Parent == nil || n.Parent.Type == 2
  given forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  ensures only_tags_change: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n.Type == 3
  invariant forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n.Type == 3
func SwapTags(ctx, doc, isOuterNode, isInnerNode)
  property C23
  requires doc != nil && isOuterNode != nil && isInnerNode != nil
  modifies html.Node.Data, html.Node.DataAtom, html.Node.Attr
  ensures only_tags_change: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n.Type == 3

// ---- nothing in it ---------------------------------------------------------------

// hasText(n): a text below n (or n itself) is not empty; textFrom(n): of n and
// the siblings after it one has text.
spec func hasText(n *html.Node) bool
spec func textFrom(n *html.Node) bool
func hasTextChildNodes$1(node)
  property C23
  requires node != nil
  requires forall n *html.Node {hasText(n)} :: n != nil ==> (hasText(n) <==> n.Type == 1 && n.Data != "" || textFrom(n.FirstChild))
  requires forall n *html.Node {textFrom(n)} :: n != nil && n.Parent != nil ==> (textFrom(n) <==> hasText(n) || textFrom(n.NextSibling))
  requires !textFrom(nil)
  requires forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  requires forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent == n.Parent
  modifies found
  ensures finds_text: found <==> old(found) || hasText(node)
  invariant (old(found) || hasText(node)) <==> found || textFrom(child)
  invariant child != nil ==> child.Parent == node
func hasTextChildNodes(startNode) (r)
  property C23
  requires startNode != nil
  requires forall n *html.Node {hasText(n)} :: n != nil ==> (hasText(n) <==> n.Type == 1 && n.Data != "" || textFrom(n.FirstChild))
  requires forall n *html.Node {textFrom(n)} :: n != nil && n.Parent != nil ==> (textFrom(n) <==> hasText(n) || textFrom(n.NextSibling))
  requires !textFrom(nil)
  requires forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  requires forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent == n.Parent
  ensures finds_text: r <==> hasText(startNode)
func RemoveEmptyCode(ctx, doc)
  property C23
  requires doc != nil
  given forall n *html.Node {hasText(n)} :: n != nil ==> (hasText(n) <==> n.Type == 1 && n.Data != "" || textFrom(n.FirstChild))
  given forall n *html.Node {textFrom(n)} :: n != nil && n.Parent != nil ==> (textFrom(n) <==> hasText(n) || textFrom(n.NextSibling))
  given !textFrom(nil)
  given forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  given forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent == n.Parent && n.NextSibling.PrevSibling == n && n.Parent != nil && posn(n) < posn(n.NextSibling)
  given forall n *html.Node {n.PrevSibling} :: n != nil && n.PrevSibling != nil ==> n.PrevSibling.NextSibling == n
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_without_text: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || n.Parent == nil && !hasText(n) && nodeName(n) == "code"
  invariant forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || n.Parent == nil && !hasText(n) && nodeName(n) == "code"
  invariant forall n *html.Node {hasText(n)} :: n != nil ==> (hasText(n) <==> n.Type == 1 && n.Data != "" || textFrom(n.FirstChild))
  invariant forall n *html.Node {textFrom(n)} :: n != nil && n.Parent != nil ==> (textFrom(n) <==> hasText(n) || textFrom(n.NextSibling))
  invariant forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  invariant forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent == n.Parent && n.NextSibling.PrevSibling == n && n.Parent != nil && posn(n) < posn(n.NextSibling)
  invariant forall n *html.Node {n.PrevSibling} :: n != nil && n.PrevSibling != nil ==> n.PrevSibling.NextSibling == n

// ---- the same inside of itself ----------------------------------------------------

func hasSameTypeAncestor(n, matchFn) (r)
  property C23
  requires n != nil && matchFn != nil
  ensures r ==> n.Type == 3 || n.Type == 5
package dom
func UnwrapNode(node)
  trusted
  requires node != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures forall m *html.Node {m.Parent} :: m.Parent == (if old(node.Parent) == nil then old(m.Parent) else if m == node then nil else if m != nil && old(m.Parent) == node then old(node.Parent) else old(m.Parent))
func AllNodes(startNode) (r)
  trusted
  requires startNode != nil
  ensures forall k int {r[k]} :: 0 <= k && k < len(r) ==> r[k] != nil
package internal/domutils
func RemoveRedundant(doc, matchFn)
  given forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil ==> posn(n.Parent) < posn(n)
  invariant forall n *html.Node {n.Parent} :: n != nil && n.Parent != nil ==> posn(n.Parent) < posn(n)
  property C23
  requires doc != nil && matchFn != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_elements_leave: forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && old(n.Parent) != nil ==> n.Type == 3 || n.Type == 5
  ensures nothing_leaves_with_them: forall n *html.Node, p *html.Node {n.Parent, p.Parent} :: n != nil && p != nil && n.Parent == p && p.Parent == nil ==> old(p.Parent) == nil
  invariant forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && old(n.Parent) != nil ==> n.Type == 3 || n.Type == 5
  invariant forall n *html.Node, p *html.Node {n.Parent, p.Parent} :: n != nil && p != nil && n.Parent == p && p.Parent == nil ==> old(p.Parent) == nil

// ---- spaces around code -------------------------------------------------------------

func getFirstChildNode(startNode, matchFn) (r)
  internal
  requires startNode != nil && matchFn != nil
func getLastChildNode(startNode, matchFn) (r)
  internal
  requires startNode != nil && matchFn != nil
func getPrevTextNode(startNode) (r)
  property C23
  requires startNode != nil
  ensures r != nil ==> r.Type == 1
func getNextTextNode(startNode) (r)
  property C23
  requires startNode != nil
  ensures r != nil ==> r.Type == 1
func isInsidePre(node) (r)
  internal
  requires node != nil
  ensures node.Parent != nil && nodeName(node.Parent) == "pre" ==> r
  invariant node.Parent != nil && nodeName(node.Parent) == "pre" ==> p == node.Parent
lemma space_before(s bytes)
  trigger words(" " + s)
  ensures words(" " + s) == words(s)
  apply inked_drop(" " + s, len(s)+1)
  assert (" " + s)[1:] == s
lemma space_after(s bytes)
  trigger words(s + " ")
  ensures words(s + " ") == words(s)
  apply inked_snoc(s, " ")
func AddSpace(ctx, doc, isOuterNode, isInnerNode)
  property C23
  use space_before, space_after
  requires doc != nil && isOuterNode != nil && isInnerNode != nil
  modifies html.Node.Data
  ensures words_kept: forall n *html.Node {n.Data} :: words(n.Data) == words(old(n.Data))
  ensures only_texts: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n.Type == 1
  invariant forall n *html.Node {n.Data} :: words(n.Data) == words(old(n.Data))
  invariant forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n.Type == 1

// ---- between two lists ----------------------------------------------------------------

func nextNameIsList(startNode) (r)
  property C23
  requires startNode != nil
  given forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.Parent != nil
  ensures has_neighbour: r ==> startNode.Parent != nil
  invariant node != nil ==> startNode.Parent != nil
func insertComment(listNode)
  property C23
  requires listNode != nil && listNode.Parent != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_a_new_node: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || fresh(n)
func AddListEndComments(ctx, doc)
  property C23
  requires doc != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_new_nodes: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || fresh(n)
  invariant forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || fresh(n)

// ---- the same next to each other -----------------------------------------------------

func getNextNodeInBlock(node) (r)
  property C23
  requires node != nil
  ensures next_sibling: node.NextSibling != nil ==> r == node.NextSibling
  ensures not_out_of_a_block: r != nil && node.NextSibling == nil ==> node.Parent != nil && !blockName(nodeName(node.Parent))
  invariant node != nil && (node == old(node) || old(node).NextSibling == nil && old(node).Parent != nil && !blockName(nodeName(old(node).Parent)))
func collectAdjacentNodes(node, matchFn) (r)
  property C23
  requires node != nil && matchFn != nil
  ensures no_texts: forall k int {r[k]} :: 0 <= k && k < len(r) ==> r[k] != nil && (r[k].Type == 3 || r[k].Type == 5)
  assumes not_itself: forall k int {r[k]} :: 0 <= k && k < len(r) ==> r[k] != old(node)
  invariant forall k int {collectedNodes[k]} :: 0 <= k && k < len(collectedNodes) ==> collectedNodes[k] != nil && (collectedNodes[k].Type == 3 || collectedNodes[k].Type == 5)
func mergeChildren(destinationNode, nodes)
  property C23
  requires destinationNode != nil
  requires forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> nodes[k] != nil && nodes[k] != destinationNode && (nodes[k].Type == 3 || nodes[k].Type == 5)
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_elements_leave: forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && old(n.Parent) != nil ==> n.Type == 3 || n.Type == 5
  ensures nothing_leaves_with_them: forall n *html.Node, p *html.Node {n.Parent, p.Parent} :: n != nil && p != nil && n.Parent == p && p.Parent == nil ==> old(p.Parent) == nil
  ensures moved_there: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || n.Parent == nil || n.Parent == destinationNode
  invariant forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || n.Parent == nil || n.Parent == destinationNode
  invariant destinationNode.Parent == nil ==> old(destinationNode.Parent) == nil
  invariant L1: forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && old(n.Parent) != nil ==> n.Type == 3 || n.Type == 5
  invariant L1: forall n *html.Node, p *html.Node {n.Parent, p.Parent} :: n != nil && p != nil && n.Parent == p && p.Parent == nil ==> old(p.Parent) == nil
  invariant L2: forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && old(n.Parent) != nil ==> n.Type == 3 || n.Type == 5
  invariant L2: forall n *html.Node, p *html.Node {n.Parent, p.Parent} :: n != nil && p != nil && n.Parent == p && p.Parent == nil ==> old(p.Parent) == nil
  invariant L2: forall n *html.Node {n.Parent} {kidPos(children, n)} :: n != nil && n.Parent == node ==> $i <= kidPos(children, n) && kidPos(children, n) < len(children) && children[kidPos(children, n)] == n
  invariant L2: forall k int {children[k]} :: $i <= k && k < len(children) ==> children[k] != nil && children[k].Parent == node
  invariant L2: forall k int {children[k]} :: 0 <= k && k < len(children) ==> kidPos(children, children[k]) == k
func MergeAdjacent(doc, matchFn)
  property C23
  invariant forall n *html.Node {n.Parent} :: n == node && n != nil ==> n.Parent != nil || old(n.Parent) == nil
  requires doc != nil && matchFn != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_elements_leave: forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && old(n.Parent) != nil ==> n.Type == 3 || n.Type == 5
  ensures nothing_leaves_with_them: forall n *html.Node, p *html.Node {n.Parent, p.Parent} :: n != nil && p != nil && n.Parent == p && p.Parent == nil ==> old(p.Parent) == nil
  invariant forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && old(n.Parent) != nil ==> n.Type == 3 || n.Type == 5
  invariant forall n *html.Node, p *html.Node {n.Parent, p.Parent} :: n != nil && p != nil && n.Parent == p && p.Parent == nil ==> old(p.Parent) == nil
// where a node ends in the document
spec func endn(n *html.Node) int
func MergeAdjacentTextNodes(n)
  property C23
  given forall x *html.Node {x.FirstChild} :: x != nil && x.FirstChild != nil ==> x.FirstChild.Parent == x && x.FirstChild.PrevSibling == nil
  given forall x *html.Node {x.NextSibling} :: x != nil && x.NextSibling != nil ==> x.NextSibling.Parent == x.Parent && x.NextSibling.PrevSibling == x && endn(x) < posn(x.NextSibling)
  given forall x *html.Node {x.Parent} :: x != nil && x.Parent != nil ==> posn(x.Parent) < posn(x) && endn(x) <= endn(x.Parent)
  given forall x *html.Node {posn(x)} {endn(x)} :: posn(x) <= endn(x)
  modifies html.Node.Data, html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_texts_grow: forall x *html.Node {x.Data} :: x.Data == old(x.Data) || x.Type == 1 && len(x.Data) >= len(old(x.Data)) && x.Data[:len(old(x.Data))] == old(x.Data)
  ensures only_texts_leave: forall x *html.Node {x.Parent} :: x.Parent == old(x.Parent) || x.Parent == nil && x.Type == 1 && posn(n) < posn(x) && posn(x) <= endn(n)
  ensures forall x *html.Node {x.NextSibling} :: x == nil || x.NextSibling == old(x.NextSibling) || posn(n) < posn(x) && posn(x) <= endn(n)
  ensures forall x *html.Node {x.PrevSibling} :: x == nil || x.PrevSibling == old(x.PrevSibling) || posn(n) < posn(x) && posn(x) <= endn(n)
  invariant forall x *html.Node {x.Data} :: x.Data == old(x.Data) || x.Type == 1 && len(x.Data) >= len(old(x.Data)) && x.Data[:len(old(x.Data))] == old(x.Data)
  invariant forall x *html.Node {x.Parent} :: x.Parent == old(x.Parent) || x.Parent == nil && x.Type == 1 && posn(n) < posn(x) && posn(x) <= endn(n)
  invariant forall x *html.Node {x.NextSibling} :: x == nil || x.NextSibling == old(x.NextSibling) || posn(n) < posn(x) && posn(x) <= endn(n)
  invariant forall x *html.Node {x.PrevSibling} :: x == nil || x.PrevSibling == old(x.PrevSibling) || posn(n) < posn(x) && posn(x) <= endn(n)
  invariant c != nil ==> c.Parent == n && posn(n) < posn(c) && endn(c) <= endn(n)
  invariant c != nil && c.PrevSibling != nil ==> posn(c.PrevSibling) < posn(c) && posn(n) < posn(c.PrevSibling)
  invariant forall x *html.Node {x.NextSibling} :: c != nil && x != nil && posn(x) >= posn(c) ==> x.NextSibling == old(x.NextSibling)
  invariant forall x *html.Node {x.Parent} :: c != nil && x != nil && posn(x) >= posn(c) ==> x.Parent == old(x.Parent)
  invariant forall x *html.Node {x.PrevSibling} :: c != nil && x != nil && posn(x) > posn(c) ==> x.PrevSibling == old(x.PrevSibling)

// ---- what else a list may contain ------------------------------------------------------

func MoveListItems(ctx, n)
  property C23
  opt clock
  invariant L1: forall k int {children[k]} :: 0 <= k && k < len(children) ==> allocated(children[k])
  requires n != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures nothing_leaves: forall x *html.Node {x.Parent} :: x != nil && x.Parent == nil && !fresh(x) ==> old(x.Parent) == nil
  invariant L1: forall x *html.Node {x.Parent} :: x != nil && x.Parent == nil && !fresh(x) ==> old(x.Parent) == nil
  invariant L1: previousLi != nil ==> previousLi.Parent == n
  invariant L1: forall k int {children[k]} :: 0 <= k && k < len(children) ==> children[k] != nil && kidPos(children, children[k]) == k
  invariant L1: forall k int {children[k]} :: $i <= k && k < len(children) ==> children[k].Parent == n && children[k] != previousLi
  invariant L2: forall x *html.Node {x.Parent} :: x != nil && x.Parent == nil && !fresh(x) ==> old(x.Parent) == nil

// ---- blocks where no block can be --------------------------------------------------------

func getMarkdownStructure(name) (r)
  internal
  ensures name == "#text" ==> r != "container_block" && r != "leaf_block"
  ensures name == "#comment" ==> r != "container_block" && r != "leaf_block"
func headingAlternative(ctx, node)
  property C23
  requires forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent != nil
  requires forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent != nil
  ensures forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent != nil
  ensures forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent != nil
  requires node != nil && node.Parent != nil
  modifies html.Node.Data, html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_it_changes: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n == node || fresh(n)
  ensures becomes_strong: node.Data == "strong"
  ensures nothing_moves: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || fresh(n)
func blockquoteAlternative(ctx, node)
  property C23
  requires forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent != nil
  requires forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent != nil
  ensures forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent != nil
  ensures forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent != nil
  requires node != nil && node.Parent != nil
  modifies html.Node.Data, html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_it_changes: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n == node || fresh(n)
  ensures becomes_span: node.Data == "span"
  ensures nothing_moves: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || fresh(n)
func LeafBlockAlternatives$1(node, isInsideLeafBlock, isInsideInline)
  property C23
  requires node != nil
  given node.Parent != nil || !isInsideLeafBlock && !isInsideInline || node.Data == "hr"
  given forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent != nil && n.Data != "hr"
  given forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent != nil
  modifies html.Node.Data, html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_tags_change: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n.Type != 1 || fresh(n)
  ensures rules_stay_rules: forall n *html.Node {n.Data} :: !fresh(n) && (n.Type == 3 || n.Type == 5) && old(n.Data) == "hr" ==> n.Data == "hr"
  ensures only_rules_leave: forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && !fresh(n) && old(n.Parent) != nil ==> (n.Type == 3 || n.Type == 5) && n.Data == "hr"
  ensures nothing_else_moves: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || fresh(n) || n.Parent == nil
  invariant child != nil ==> child.Parent != nil
  invariant child != nil ==> (forall n *html.Node {n.NextSibling} :: n != nil && n.NextSibling != nil ==> n.NextSibling.Parent != nil)
func LeafBlockAlternatives(ctx, doc)
  property C23
  requires doc != nil
  modifies html.Node.Data, html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_tags_change: forall n *html.Node {n.Data} :: n.Data == old(n.Data) || n.Type != 1 || fresh(n)
  ensures only_rules_leave: forall n *html.Node {n.Parent} :: n != nil && n.Parent == nil && !fresh(n) && old(n.Parent) != nil ==> (n.Type == 3 || n.Type == 5) && n.Data == "hr"


// ---- what the plugins do with all that ---------------------------------------------------

package plugin/base
func (b *base) preRenderRemove$1(node)
  property C23, C24
  requires node != nil && ctx != nil
  given forall n *html.Node {n.FirstChild} :: n != nil && n.FirstChild != nil ==> n.FirstChild.Parent == n
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_removed_tags: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || n.Parent == nil && tagTypeOf(ctx, nodeName(n)) == "remove"
  ensures it_leaves: tagTypeOf(ctx, nodeName(node)) == "remove" ==> node.Parent == nil
func (b *base) preRenderRemove(ctx, doc)
  property C23, C24
  requires ctx != nil && doc != nil
  modifies html.Node.Data, html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures only_texts_grow: forall x *html.Node {x.Data} :: x.Data == old(x.Data) || x.Type == 1 && len(x.Data) >= len(old(x.Data)) && x.Data[:len(old(x.Data))] == old(x.Data)
  ensures only_removed_or_joined: forall n *html.Node {n.Parent} :: n.Parent == old(n.Parent) || n.Parent == nil && (n.Type == 1 || tagTypeOf(ctx, old(nodeName(n))) == "remove")

package plugin/commonmark
func nameIsBold(node) (r)
  property C23
  requires node != nil
  ensures has_tag: r ==> node.Type == 3 || node.Type == 5
  ensures r <==> nodeName(node) == "strong" || nodeName(node) == "b"
func nameIsItalic(node) (r)
  property C23
  requires node != nil
  ensures has_tag: r ==> node.Type == 3 || node.Type == 5
  ensures r <==> nodeName(node) == "em" || nodeName(node) == "i"
func nameIsBoldOrItalic(node) (r)
  property C23
  requires node != nil
  ensures has_tag: r ==> node.Type == 3 || node.Type == 5
func nameIsBothBoldOrItalic(a, b) (r)
  property C23
  requires a != nil && b != nil
  ensures has_tag: r ==> a.Type == 3 || a.Type == 5
func nameIsPre(node) (r)
  property C23
  requires node != nil
  ensures has_tag: r ==> node.Type == 3 || node.Type == 5
func nameIsInlineCode(node) (r)
  property C23
  requires node != nil
  ensures has_tag: r ==> node.Type == 3 || node.Type == 5
func nameIsLink(node) (r)
  property C23
  requires node != nil
  ensures has_tag: r ==> node.Type == 3 || node.Type == 5
func nameIsBothLink(a, b) (r)
  property C23
  requires a != nil && b != nil
  ensures has_tag: r ==> a.Type == 3 || a.Type == 5
func nameIsHeading(node) (r)
  property C23
  requires node != nil
  ensures has_tag: r ==> node.Type == 3 || node.Type == 5
func (c *commonmark) handlePreRender(ctx, doc)
  property C23
  requires doc != nil
  modifies html.Node.Data, html.Node.DataAtom, html.Node.Attr, html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures texts_keep_their_words: forall n *html.Node {n.Data} :: n != nil && n.Type == 1 && !fresh(n) ==> words(n.Data) == words(old(n.Data))
  ensures no_text_leaves: forall n *html.Node {n.Parent} :: n != nil && n.Type == 1 && !fresh(n) && old(n.Parent) != nil ==> n.Parent != nil

package plugin/strikethrough
func (s *strikethroughPlugin) handlePreRender(ctx, doc)
  property C23
  requires doc != nil
  modifies html.Node.Parent, html.Node.NextSibling, html.Node.PrevSibling, html.Node.FirstChild, html.Node.LastChild
  ensures no_text_leaves: forall n *html.Node {n.Parent} :: n != nil && n.Type == 1 && old(n.Parent) != nil ==> n.Parent != nil
