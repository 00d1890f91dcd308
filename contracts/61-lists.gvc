// Lists.
package plugin/commonmark

spec func startOf(n *html.Node) int {
  let v = attrOr(n.Attr, "start", "1", 0) in if atoiFails(v) then 1 else atoi(v)
}
func getStartAt(node) (r)
  property C11
  internal
  requires node != nil
  ensures r == startOf(node)

// the number of the first item: as the list says, if all its numbers are valid
spec func firstNumber(n *html.Node, items int) int {
  if startOf(n) < 0 || startOf(n) > 999999999 - (items - 1) then 1 else startOf(n)
}
spec func itemPrefix(bullet bytes, n *html.Node, items int, i int) bytes opaque {
  if n.Data == "ul" then bullet + " "
  else zpad(runeCount(itoa(firstNumber(n, items) + items - 1)), firstNumber(n, items) + i) + ". "
}
// the items of the nodes that rendered to something
spec func kept(rs seq[bytes], a int, i int) seq[bytes] decreases i - a {
  if i <= a then emptyseq(one("")) else if blank(rs[i-1]) then kept(rs, a, i-1) else kept(rs, a, i-1) + one(trimmed(rs[i-1]))
}
lemma kept_prefix(r1 seq[bytes], r2 seq[bytes], a int, i int)
  requires 0 <= a && i <= len(r1) && i <= len(r2)
  requires forall k int {r1[k]} {r2[k]} :: 0 <= k < i ==> r1[k] == r2[k]
  decreases i - a
  apply kept_prefix(r1, r2, a, i-1) when i > a
  ensures kept(r1, a, i) == kept(r2, a, i)
lemma kept_step(r1 seq[bytes], r2 seq[bytes], a int, i int, j int)
  requires 0 <= a <= i && j == i + 1 && i <= len(r1) && j <= len(r2)
  requires forall k int {r1[k]} {r2[k]} :: 0 <= k < i ==> r1[k] == r2[k]
  apply kept_prefix(r1, r2, a, i)
  ensures kept(r2, a, j) == (if blank(r2[i]) then kept(r1, a, i) else kept(r1, a, i) + one(trimmed(r2[i])))
  trigger kept(r1, a, i), kept(r2, a, j)

spec func itemText(ctx ref, item bytes) bytes {
  unescapedBy(ctx, softBreaks(norm(item, len(item)) + pend(item, len(item))))
}
// lines after the first are indented, and so are those of code blocks
spec func indented(a seq[bytes], ind bytes, n int) bytes decreases n {
  if n <= 0 then ""
  else indented(a, ind, n-1) + (if n == 1 then "" else ind) + repl(a[n-1], marker(), marker() + ind, 0) + (if n < len(a) then "\n" else "")
}
func renderMultiLineListItem(w, content, indentCount)
  property C11
  requires indentCount >= 0
  modifies w
  ensures lines: w == old(w) + indented(pieces(content, 10), rep(' ', indentCount), len(pieces(content, 10)))
  invariant w == old(w) + indented(pieces(content, 10), rep(' ', indentCount), $i)
  invariant lines == pieces(content, 10)

spec func itemLines(ctx ref, bullet bytes, n *html.Node, items seq[bytes], i int) bytes opaque {
  itemPrefix(bullet, n, len(items), i)
    + (let t = itemText(ctx, items[i]) in indented(pieces(t, 10), rep(' ', runeCount(itemPrefix(bullet, n, len(items), 0))), len(pieces(t, 10))))
}
spec func listItems(ctx ref, bullet bytes, n *html.Node, items seq[bytes], i int) bytes decreases i {
  if i <= 0 then ""
  else listItems(ctx, bullet, n, items, i-1) + itemLines(ctx, bullet, n, items, i-1)
    + (if i < len(items) then "\n" else "")
}
func (c commonmark) renderListContainer(ctx, w, n) (r)
  property C11
  requires ctx != nil && n != nil
  modifies w, rendered
  ensures no_items: len(kept(rendered, len(old(rendered)), len(rendered))) == 0 ==> w == old(w) + "\n\n"
  ensures items: len(kept(rendered, len(old(rendered)), len(rendered))) > 0 ==> (let ks = kept(rendered, len(old(rendered)), len(rendered)) in
    w == old(w) + "\n\n" + listItems(ctx, c.config.BulletListMarker, n, ks, len(ks)) + "\n\n")
  ensures success: r == 1
  invariant L1: len(rendered) == len(old(rendered)) + $i
  invariant L1: items == kept(rendered, len(old(rendered)), len(old(rendered)) + $i)
  invariant L2: w == old(w) + "\n\n" + listItems(ctx, c.config.BulletListMarker, n, items, $i)
  use kept_step
// all the numbers of a list take up the same space and are valid
lemma same_width(bullet bytes, n *html.Node, items int, i int)
  property C11
  requires n != nil && 0 <= i < items && items <= 999999999
  assert 0 <= firstNumber(n, items) && firstNumber(n, items) + items - 1 <= 999999999
  assert len(itoa(firstNumber(n, items) + i)) <= len(itoa(firstNumber(n, items) + items - 1))
  assert len(itoa(firstNumber(n, items))) <= len(itoa(firstNumber(n, items) + items - 1))
  assert runeCount(itoa(firstNumber(n, items) + items - 1)) == len(itoa(firstNumber(n, items) + items - 1))
  ensures width: len(itemPrefix(bullet, n, items, i)) == len(itemPrefix(bullet, n, items, 0))
  ensures valid: 0 <= firstNumber(n, items) + i <= 999999999
