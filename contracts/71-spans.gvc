// What the modifications amount to: every cell of a row starts in the column
// after the columns of the cell before it and takes as many as it asks for.
package plugin/table

spec func expanded(p *table.tablePlugin, nodes seq[*html.Node], cells seq[bytes], k int) seq[bytes] decreases k {
  if k <= 0 then emptyseq("")
  else expanded(p, nodes, cells, k-1) + one(cells[k-1]) + repseq(if p.spanCellBehavior == "mirror" then cells[k-1] else "", spanOf(nodes[k-1].Attr, "colspan", 1) - 1)
}
lemma span_at_least_one(nodes seq[*html.Node], k int)
  property C15
  decreases k
  apply span_at_least_one(nodes, k-1) when k > 0
  ensures startCol(nodes, k) >= max(k, 0)
lemma expanded_len(p *table.tablePlugin, nodes seq[*html.Node], cells seq[bytes], k int)
  property C15
  decreases k
  apply expanded_len(p, nodes, cells, k-1) when k > 0
  ensures len(expanded(p, nodes, cells, k)) == startCol(nodes, k)
lemma applied_prefix(c seq[seq[bytes]], a seq[table.modification], b seq[table.modification], k int)
  property C15
  requires 0 <= k <= len(a)
  decreases k
  apply applied_prefix(c, a, b, k-1) when k > 0
  ensures applied(c, a + b, k) == applied(c, a, k)
lemma applied_cat(c seq[seq[bytes]], a seq[table.modification], b seq[table.modification], k int)
  property C15
  requires 0 <= k <= len(b)
  decreases k
  apply applied_cat(c, a, b, k-1) when k > 0
  apply applied_prefix(c, a, b, len(a))
  ensures applied(c, a + b, len(a) + k) == applied(applied(c, a, len(a)), b, k)
// modifications of other rows leave a row alone
lemma other_rows(c seq[seq[bytes]], m seq[table.modification], y int, k int)
  property C15
  requires 0 <= y < len(c) && 0 <= k <= len(m) && (forall i int {m[i]} :: 0 <= i < k ==> m[i].y >= 0 && m[i].y != y)
  decreases k
  apply other_rows(c, m, y, k-1) when k > 0
  ensures len(applied(c, m, k)) >= len(c) && applied(c, m, k)[y] == c[y]
lemma across_row(y int, x int, n int, d bytes)
  property C15
  decreases n
  apply across_row(y, x, n-1, d) when n > 0
  apply across_len(y, x, n-1, d) when n > 0
  ensures forall i int {across(y, x, n, d)[i]} :: 0 <= i < len(across(y, x, n, d)) ==> across(y, x, n, d)[i].y == y && across(y, x, n, d)[i].x == x+i && across(y, x, n, d)[i].data == d
lemma below_rows(y int, x int, h int, n int, d bytes)
  property C15
  decreases h
  apply below_rows(y, x, h-1, n, d) when h > 0
  apply across_row(y+h-1, x, n, d) when h > 0
  ensures forall i int {below(y, x, h, n, d)[i]} :: 0 <= i < len(below(y, x, h, n, d)) ==> below(y, x, h, n, d)[i].y >= y
// inserted one after the other behind the first x cells
lemma across_applied(c seq[seq[bytes]], y int, x int, n int, d bytes, left seq[bytes], right seq[bytes])
  property C15
  requires 0 <= y < len(c) && c[y] == left + right && len(left) == x && n >= 0
  decreases n
  apply across_applied(c, y, x, n-1, d, left, right) when n > 0
  apply across_len(y, x, n, d)
  apply across_len(y, x, n-1, d)
  apply applied_prefix(c, across(y, x, n-1, d), one(make("table.modification", y, x+n-1, d)), n-1) when n > 0
  ensures len(applied(c, across(y, x, n, d), n)) == len(c) && applied(c, across(y, x, n, d), n)[y] == left + repseq(d, n) + right
lemma one_cell(c seq[seq[bytes]], y int, x int, cs int, rs int, d bytes, left seq[bytes], right seq[bytes])
  property C15
  requires 0 <= y < len(c) && c[y] == left + right && len(left) == x+1 && cs >= 1 && x >= 0
  apply across_applied(c, y, x+1, cs-1, d, left, right)
  apply across_len(y, x+1, cs-1, d)
  apply below_rows(y+1, x, rs-1, cs, d)
  apply other_rows(applied(c, across(y, x+1, cs-1, d), cs-1), below(y+1, x, rs-1, cs, d), y, len(below(y+1, x, rs-1, cs, d)))
  apply applied_cat(c, across(y, x+1, cs-1, d), below(y+1, x, rs-1, cs, d), len(below(y+1, x, rs-1, cs, d)))
  ensures len(applied(c, across(y, x+1, cs-1, d) + below(y+1, x, rs-1, cs, d), len(across(y, x+1, cs-1, d) + below(y+1, x, rs-1, cs, d)))) >= len(c)
  ensures applied(c, across(y, x+1, cs-1, d) + below(y+1, x, rs-1, cs, d), len(across(y, x+1, cs-1, d) + below(y+1, x, rs-1, cs, d)))[y] == left + repseq(d, cs-1) + right
spec func cellMods(p *table.tablePlugin, nodes seq[*html.Node], cells seq[bytes], y int, k int) seq[table.modification] {
  across(y, startCol(nodes, k)+1, spanOf(nodes[k].Attr, "colspan", 1)-1, if p.spanCellBehavior == "mirror" then cells[k] else "")
  + below(y+1, startCol(nodes, k), spanOf(nodes[k].Attr, "rowspan", 1)-1, spanOf(nodes[k].Attr, "colspan", 1), if p.spanCellBehavior == "mirror" then cells[k] else "")
}
lemma row_expanded(c seq[seq[bytes]], p *table.tablePlugin, nodes seq[*html.Node], cells seq[bytes], y int, k int)
  property C15
  requires 0 <= y < len(c) && c[y] == cells && 0 <= k <= len(cells) && len(nodes) == len(cells)
  decreases k
  apply row_expanded(c, p, nodes, cells, y, k-1) when k > 0
  apply expanded_len(p, nodes, cells, k-1) when k > 0
  apply span_at_least_one(nodes, k-1) when k > 0
  assert k > 0 ==> spanMods(p, nodes, cells, y, k) == spanMods(p, nodes, cells, y, k-1) + cellMods(p, nodes, cells, y, k-1)
  apply applied_cat(c, spanMods(p, nodes, cells, y, k-1), cellMods(p, nodes, cells, y, k-1), len(cellMods(p, nodes, cells, y, k-1))) when k > 0
  apply one_cell(applied(c, spanMods(p, nodes, cells, y, k-1), len(spanMods(p, nodes, cells, y, k-1))), y, startCol(nodes, k-1), spanOf(nodes[k-1].Attr, "colspan", 1), spanOf(nodes[k-1].Attr, "rowspan", 1), if p.spanCellBehavior == "mirror" then cells[k-1] else "", expanded(p, nodes, cells, k-1) + one(cells[k-1]), cells[k:]) when k > 0
  ensures len(applied(c, spanMods(p, nodes, cells, y, k), len(spanMods(p, nodes, cells, y, k)))) >= len(c)
  ensures applied(c, spanMods(p, nodes, cells, y, k), len(spanMods(p, nodes, cells, y, k)))[y] == expanded(p, nodes, cells, k) + cells[k:]
// the rows below do not reach up
lemma spans_downwards(p *table.tablePlugin, nodes seq[*html.Node], cells seq[bytes], y int, k int)
  property C15
  requires 0 <= k <= len(cells) && len(nodes) == len(cells)
  decreases k
  apply spans_downwards(p, nodes, cells, y, k-1) when k > 0
  apply across_row(y, startCol(nodes, k-1)+1, spanOf(nodes[k-1].Attr, "colspan", 1)-1, if p.spanCellBehavior == "mirror" then cells[k-1] else "") when k > 0
  apply below_rows(y+1, startCol(nodes, k-1), spanOf(nodes[k-1].Attr, "rowspan", 1)-1, spanOf(nodes[k-1].Attr, "colspan", 1), if p.spanCellBehavior == "mirror" then cells[k-1] else "") when k > 0
  ensures forall i int {spanMods(p, nodes, cells, y, k)[i]} :: 0 <= i < len(spanMods(p, nodes, cells, y, k)) ==> spanMods(p, nodes, cells, y, k)[i].y >= y
lemma rows_untouched(rows seq[seq[bytes]], groups seq[seq[table.modification]], y int, k int)
  property C15
  requires 0 <= y < len(rows) && 0 <= k <= len(groups)
  requires forall g int, i int {groups[g][i]} :: k <= g < len(groups) && 0 <= i < len(groups[g]) ==> groups[g][i].y >= 0 && groups[g][i].y != y
  decreases len(groups) - k
  apply rows_untouched(rows, groups, y, k+1) when k < len(groups)
  apply other_rows(appliedGroups(rows, groups, k+1), groups[k], y, len(groups[k])) when k < len(groups)
  ensures len(appliedGroups(rows, groups, k)) >= len(rows) && appliedGroups(rows, groups, k)[y] == rows[y]
lemma rows_above(rows seq[seq[bytes]], groups seq[seq[table.modification]], y int, k int, g int)
  property C15
  requires 0 <= k <= g && g <= len(groups) && 0 <= y < len(appliedGroups(rows, groups, g))
  requires forall j int, i int {groups[j][i]} :: k <= j < g && 0 <= i < len(groups[j]) ==> groups[j][i].y >= 0 && groups[j][i].y != y
  decreases g - k
  apply rows_above(rows, groups, y, k+1, g) when k < g
  apply other_rows(appliedGroups(rows, groups, k+1), groups[k], y, len(groups[k])) when k < g
  ensures len(appliedGroups(rows, groups, k)) >= len(appliedGroups(rows, groups, g)) && appliedGroups(rows, groups, k)[y] == appliedGroups(rows, groups, g)[y]
// a row that no cell above reaches into comes out with every cell where its columns begin
lemma row_of_table(rows seq[seq[bytes]], groups seq[seq[table.modification]], p *table.tablePlugin, nodes seq[*html.Node], g int, y int)
  property C15
  requires 0 <= g < len(groups) && 0 <= y < len(rows) && len(nodes) == len(rows[y]) && groups[g] == spanMods(p, nodes, rows[y], y, len(rows[y]))
  requires forall j int, i int {groups[j][i]} :: g < j < len(groups) && 0 <= i < len(groups[j]) ==> groups[j][i].y > y
  requires forall j int, i int {groups[j][i]} :: 0 <= j < g && 0 <= i < len(groups[j]) ==> groups[j][i].y >= 0 && groups[j][i].y != y
  apply rows_untouched(rows, groups, y, g+1)
  apply row_expanded(appliedGroups(rows, groups, g+1), p, nodes, rows[y], y, len(rows[y]))
  apply rows_above(rows, groups, y, 0, g)
  ensures len(appliedGroups(rows, groups, 0)) > y && appliedGroups(rows, groups, 0)[y] == expanded(p, nodes, rows[y], len(rows[y]))
