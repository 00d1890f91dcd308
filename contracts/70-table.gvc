// Tables: a rectangle of cells.
package plugin/table

// the width of column x among the first k rows, and the number of columns
spec func colWidth(rows seq[seq[bytes]], k int, x int) int decreases k {
  if k <= 0 then 1
  else if x < len(rows[k-1]) then max(colWidth(rows, k-1, x), runeCount(rows[k-1][x]))
  else colWidth(rows, k-1, x)
}
spec func columns(rows seq[seq[bytes]], k int) int decreases k {
  if k <= 0 then 0 else max(columns(rows, k-1), len(rows[k-1]))
}
lemma no_cells_there(rows seq[seq[bytes]], k int, x int)
  requires 0 <= k <= len(rows) && x >= columns(rows, k)
  decreases k
  apply no_cells_there(rows, k-1, x) when k > 0
  ensures colWidth(rows, k, x) == 1
  trigger colWidth(rows, k, x)
func calculateMaxCounts(rows) (r)
  property C14
  use no_cells_there
  ensures every_column: len(r) == columns(rows, len(rows))
  ensures widest_cell: forall x int {r[x]} :: 0 <= x < len(r) ==> r[x] == colWidth(rows, len(rows), x)
  ensures one_wide_at_least: forall x int {r[x]} :: 0 <= x < len(r) ==> r[x] >= 1
  ensures every_row_fits: forall y int {rows[y]} :: 0 <= y < len(rows) ==> len(rows[y]) <= len(r)
  ensures every_cell_fits: gridFits(rows, r)
  ensures forall y int, x int {rows[y][x]} :: 0 <= y < len(rows) && 0 <= x < len(rows[y]) ==> runeCount(rows[y][x]) <= r[x]
  invariant L1: (forall x int {maxCounts[x]} :: 0 <= x < len(maxCounts) ==> maxCounts[x] >= 1) && (forall y int {rows[y]} :: 0 <= y < $i ==> len(rows[y]) <= len(maxCounts))
  invariant L1: forall y int, x int {rows[y][x]} :: 0 <= y < $i && 0 <= x < len(rows[y]) ==> runeCount(rows[y][x]) <= maxCounts[x]
  invariant L2: (forall x int {maxCounts[x]} :: 0 <= x < len(maxCounts) ==> maxCounts[x] >= 1) && (forall y int {rows[y]} :: 0 <= y < $up ==> len(rows[y]) <= len(maxCounts))
  invariant L2: forall y int, x int {rows[y][x]} :: 0 <= y < $up && 0 <= x < len(rows[y]) ==> runeCount(rows[y][x]) <= maxCounts[x]
  invariant L2: forall x int {rows[$up][x]} :: 0 <= x < $i ==> runeCount(rows[$up][x]) <= maxCounts[x]
  invariant L1: len(maxCounts) == columns(rows, $i)
  invariant L1: forall x int {maxCounts[x]} :: 0 <= x < len(maxCounts) ==> maxCounts[x] == colWidth(rows, $i, x)
  invariant L2: len(maxCounts) == max(columns(rows, $up), $i)
  invariant L2: forall x int {maxCounts[x]} :: 0 <= x < len(maxCounts) ==> maxCounts[x] == (if x < $i then colWidth(rows, $up+1, x) else colWidth(rows, $up, x))

func fillUpRows(rows, maxColumnCount) (r)
  property C14
  modifies rows
  ensures same_rows: len(r) == len(old(rows))
  ensures all_as_long: (forall y int {old(rows)[y]} :: 0 <= y < len(old(rows)) ==> len(old(rows)[y]) <= maxColumnCount) ==> rowsOf(r, maxColumnCount)
  ensures bars_stay_escaped: gridBars(old(rows)) ==> gridBars(r)
  ensures no_newline_added: gridLines(old(rows)) ==> gridLines(r)
  ensures still_fits: forall widths seq[int] {gridFits(old(rows), widths)} :: gridFits(old(rows), widths) && maxColumnCount <= len(widths) && (forall x int {widths[x]} :: 0 <= x < len(widths) ==> widths[x] >= 0) ==> gridFits(r, widths)
  ensures filled: forall y int {r[y]} :: 0 <= y < len(r) ==> len(r[y]) == max(len(old(rows)[y]), maxColumnCount)
  ensures cells_kept: forall y int, x int {r[y][x]} :: 0 <= y < len(r) && 0 <= x < len(old(rows)[y]) ==> r[y][x] == old(rows)[y][x]
  ensures rest_empty: forall y int, x int {r[y][x]} :: 0 <= y < len(r) && len(old(rows)[y]) <= x < len(r[y]) ==> r[y][x] == ""
  invariant L1: len(rows) == len(old(rows)) && (forall y int {rows[y]} :: $i <= y < len(rows) ==> rows[y] == old(rows)[y])
  invariant L1: forall y int {rows[y]} :: 0 <= y < $i ==> len(rows[y]) == max(len(old(rows)[y]), maxColumnCount)
  invariant L1: forall y int, x int {rows[y][x]} :: 0 <= y < $i && 0 <= x < len(old(rows)[y]) ==> rows[y][x] == old(rows)[y][x]
  invariant L1: forall y int, x int {rows[y][x]} :: 0 <= y < $i && len(old(rows)[y]) <= x < len(rows[y]) ==> rows[y][x] == ""
  invariant L2: len(rows) == len(old(rows)) && (forall y int {rows[y]} :: $up < y < len(rows) ==> rows[y] == old(rows)[y])
  invariant L2: forall y int {rows[y]} :: 0 <= y < $up ==> len(rows[y]) == max(len(old(rows)[y]), maxColumnCount)
  invariant L2: forall y int, x int {rows[y][x]} :: 0 <= y <= $up && 0 <= x < len(old(rows)[y]) ==> rows[y][x] == old(rows)[y][x]
  invariant L2: forall y int, x int {rows[y][x]} :: 0 <= y <= $up && len(old(rows)[y]) <= x < len(rows[y]) ==> rows[y][x] == ""
  invariant L2: len(rows[$up]) == len(old(rows)[$up]) + $i

func getAlignmentFor(alignments, index) (r)
  property C14
  requires index >= 0
  ensures r == (if index < len(alignments) then alignments[index] else "")

spec func cellText(padding bytes, cell bytes, width int) bytes {
  (if padding == "aligned" || padding == "minimal" then " " else "") + cell
  + (if padding == "aligned" && width > runeCount(cell) then rep(' ', width - runeCount(cell)) else "")
  + (if padding == "aligned" || padding == "minimal" then " " else "")
}
spec func rowText(padding bytes, cells seq[bytes], widths seq[int], k int) bytes decreases k {
  if k <= 0 then ""
  else rowText(padding, cells, widths, k-1) + (if k == 1 then "|" else "") + cellText(padding, cells[k-1], widths[k-1]) + "|"
}
func (s *tablePlugin) writeRow(w, counts, cells)
  property C14
  requires len(cells) <= len(counts)
  modifies w
  ensures row: w == old(w) + rowText(s.cellPaddingBehavior, cells, counts, len(cells))
  invariant w == old(w) + rowText(s.cellPaddingBehavior, cells, counts, $i)

spec func underCell(padding bytes, align bytes, width int) bytes {
  (if align == "left" || align == "center" then ":" else "-") + (if padding == "aligned" then rep('-', width) else "-")
  + (if align == "right" || align == "center" then ":" else "-")
}
spec func alignAt(aligns seq[bytes], i int) bytes { if i < len(aligns) then aligns[i] else "" }
spec func underText(padding bytes, aligns seq[bytes], widths seq[int], k int) bytes decreases k {
  if k <= 0 then ""
  else underText(padding, aligns, widths, k-1) + (if k == 1 then "|" else "") + underCell(padding, alignAt(aligns, k-1), widths[k-1]) + "|"
}
func (s *tablePlugin) writeHeaderUnderline(w, alignments, counts)
  property C14
  requires forall i int {counts[i]} :: 0 <= i < len(counts) ==> counts[i] >= 0
  modifies w
  ensures underline: w == old(w) + underText(s.cellPaddingBehavior, alignments, counts, len(counts))
  invariant w == old(w) + underText(s.cellPaddingBehavior, alignments, counts, $i)

extern slices.Delete(s, i, j) (r)
  requires 0 <= i <= j && j <= len(s)
  ensures r == s[:i] + s[j:]
extern slices.Insert(s, i, v) (r)
  requires 0 <= i <= len(s)
  ensures r == s[:i] + v + s[i:]
extern slices.Reverse(s)
  modifies s
  ensures len(s) == len(old(s)) && (forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] == old(s)[len(s)-1-i])
func isEmptyRow(cells) (r)
  property C14
  ensures r <==> (forall i int {cells[i]} :: 0 <= i < len(cells) ==> cells[i] == "")
  invariant forall i int {cells[i]} :: 0 <= i < $i ==> cells[i] == ""
func removeFirstRowIfEmpty(rows) (r)
  property C14
  modifies rows
  ensures dropped: len(rows) > 0 && (forall i int {old(rows)[0][i]} :: 0 <= i < len(old(rows)[0]) ==> old(rows)[0][i] == "") ==> r == old(rows)[1:]
  ensures kept: len(rows) == 0 || !(forall i int {old(rows)[0][i]} :: 0 <= i < len(old(rows)[0]) ==> old(rows)[0][i] == "") ==> r == old(rows)
func containsNewline(b) (r)
  property C14
  ensures r <==> hasByte(b, '\n', len(b))

func growSlice(contents, index, placeholderVal) (r)
  property C15
  ensures long_enough: len(r) == max(len(contents), index+1)
  ensures kept: forall i int {r[i]} :: 0 <= i < len(contents) ==> r[i] == contents[i]
  ensures filled: forall i int {r[i]} :: len(contents) <= i < len(r) ==> r[i] == placeholderVal
  ensures value: r == contents + repseq(placeholderVal, max(0, index+1-len(contents)))
  invariant len(contents) == len(old(contents)) + $i
  invariant forall i int {contents[i]} :: 0 <= i < len(old(contents)) ==> contents[i] == old(contents)[i]
  invariant forall i int {contents[i]} :: len(old(contents)) <= i < len(contents) ==> contents[i] == placeholderVal

// the cells (y, x) .. (y, x+n-1), and the rows of such cells from y to y+h-1
spec func across(y int, x int, n int, data bytes) seq[table.modification] decreases n {
  if n <= 0 then emptyseq(make("table.modification", 0, 0, "")) else across(y, x, n-1, data) + one(make("table.modification", y, x+n-1, data))
}
spec func below(y int, x int, h int, n int, data bytes) seq[table.modification] decreases h {
  if h <= 0 then emptyseq(make("table.modification", 0, 0, "")) else below(y, x, h-1, n, data) + across(y+h-1, x, n, data)
}
lemma across_len(y int, x int, n int, data bytes)
  decreases n
  apply across_len(y, x, n-1, data) when n > 0
  ensures len(across(y, x, n, data)) == max(n, 0)
  trigger across(y, x, n, data)
func calculateModifications(currentRowIndex, currentColIndex, rowSpan, colSpan, data) (r)
  property C15
  requires rowSpan >= 1 && colSpan >= 1
  ensures every_covered_cell: r == across(currentRowIndex, currentColIndex+1, colSpan-1, data) + below(currentRowIndex+1, currentColIndex, rowSpan-1, colSpan, data)
  ensures these_cells: forall k int {r[k]} :: 0 <= k < len(r) ==> r[k].y >= currentRowIndex && r[k].x >= currentColIndex && r[k].data == data
  invariant L1: forall k int {mods[k]} :: 0 <= k < len(mods) ==> mods[k].y >= currentRowIndex && mods[k].x >= currentColIndex && mods[k].data == data
  invariant L2: forall k int {mods[k]} :: 0 <= k < len(mods) ==> mods[k].y >= currentRowIndex && mods[k].x >= currentColIndex && mods[k].data == data
  invariant L3: forall k int {mods[k]} :: 0 <= k < len(mods) ==> mods[k].y >= currentRowIndex && mods[k].x >= currentColIndex && mods[k].data == data
  invariant L1: mods == across(currentRowIndex, currentColIndex+1, dx-1, data) && 1 <= dx <= max(colSpan, 1)
  invariant L2: mods == across(currentRowIndex, currentColIndex+1, colSpan-1, data) + below(currentRowIndex+1, currentColIndex, dy-1, colSpan, data) && 1 <= dy <= rowSpan
  invariant L3: mods == across(currentRowIndex, currentColIndex+1, colSpan-1, data) + below(currentRowIndex+1, currentColIndex, dy-1, colSpan, data) + across(currentRowIndex+dy, currentColIndex, dx, data) && 0 <= dx <= colSpan && 1 <= dy

// ------------------------------------------------- what is in the cells
// every bar has a backslash in front of it
spec func barsEscaped(s bytes, i int) bool decreases i {
  if i <= 0 then true else barsEscaped(s, i-1) && (s[i-1] != '|' || (i >= 2 && s[i-2] == 92))
}
lemma bars_prefix(a bytes, b bytes, i int)
  requires 0 <= i <= len(a)
  decreases i
  apply bars_prefix(a, b, i-1) when i > 0
  ensures barsEscaped(a + b, i) == barsEscaped(a, i)
lemma bars_last(a bytes, x int)
  requires 0 <= x && x < 256
  apply bars_prefix(a, unit(x), len(a))
  ensures barsEscaped(a + unit(x), len(a) + 1) == (barsEscaped(a, len(a)) && (x != '|' || (len(a) >= 1 && a[len(a)-1] == 92)))
lemma escaping_bars(s bytes, i int)
  property C14
  requires 0 <= i <= len(s)
  decreases i
  apply escaping_bars(s, i-1) when i > 0
  apply bars_last(repl1(s, '|', "\\|", i-1), 92) when i > 0
  apply bars_last(repl1(s, '|', "\\|", i-1) + "\\", '|') when i > 0
  apply bars_last(repl1(s, '|', "\\|", i-1), s[i-1]) when i > 0
  ensures barsEscaped(repl1(s, '|', "\\|", i), len(repl1(s, '|', "\\|", i)))
  trigger repl1(s, '|', "\\|", i)
package converter
lemma unescaping_keeps_bars(hs converter.Converter.unEscapeHandlers, s bytes, i int)
  property C14
  requires 0 <= i <= len(s) && barsEscaped(s, i)
  decreases i
  apply unescaping_keeps_bars(hs, s, i-1) when i > 0
  apply bars_last(unescaped(hs, s, i-1), s[i-1]) when i > 0
  apply bars_last(unescaped(hs, s, i-1), 92) when i > 0
  ensures barsEscaped(unescaped(hs, s, i), len(unescaped(hs, s, i)))
  ensures i > 0 && s[i-1] == 92 ==> len(unescaped(hs, s, i)) > 0 && unescaped(hs, s, i)[len(unescaped(hs, s, i))-1] == 92
  trigger unescaped(hs, s, i)

package plugin/table
func getNumberAttributeOr(node, key, fallback) (r)
  property C15
  requires node != nil
  ensures span: r == spanOf(node.Attr, key, fallback)
spec func spanOf(a html.Node.Attr, key bytes, def int) int {
  if !hasAttr(a, key, 0) then def
  else let v = attrOr(a, key, "", 0) in if atoiFails(v) || atoi(v) < 1 then def
    // the limits of HTML
    else if key == "colspan" then min(atoi(v), 1000) else if key == "rowspan" then min(atoi(v), 65534) else atoi(v)
}
func (p *tablePlugin) getContentForMergedCell(originalContent) (r)
  property C15
  ensures r == (if p.spanCellBehavior == "mirror" then originalContent else "")

// the text of a cell, its bars escaped
spec func cellOf(ctx ref, s bytes) bytes {
  let a = repl(trimmed(s), "\x07|", "|", 0) in unescapedBy(ctx, repl1(a, '|', "\\|", len(a)))
}
// the column where the k-th cell of a row starts
spec func startCol(nodes seq[*html.Node], k int) int decreases k {
  if k <= 0 then 0 else startCol(nodes, k-1) + spanOf(nodes[k-1].Attr, "colspan", 1)
}
// the cells to insert because of the first k cells of row y
spec func spanMods(p *table.tablePlugin, nodes seq[*html.Node], cells seq[bytes], y int, k int) seq[table.modification] decreases k {
  if k <= 0 then emptyseq(make("table.modification", 0, 0, ""))
  else spanMods(p, nodes, cells, y, k-1)
    + (let d = (if p.spanCellBehavior == "mirror" then cells[k-1] else "") in
       let x = startCol(nodes, k-1) in
       let cs = spanOf(nodes[k-1].Attr, "colspan", 1) in
       across(y, x+1, cs-1, d) + below(y+1, x, spanOf(nodes[k-1].Attr, "rowspan", 1)-1, cs, d))
}
lemma spans_of_prefix(p *table.tablePlugin, nodes seq[*html.Node], a seq[bytes], c bytes, y int, k int)
  property C15
  requires 0 <= k <= len(a) + 1
  decreases k
  apply spans_of_prefix(p, nodes, a, c, y, k-1) when k > 0
  ensures k <= len(a) ==> spanMods(p, nodes, a + one(c), y, k) == spanMods(p, nodes, a, y, k)
  ensures k > 0 ==> spanMods(p, nodes, a + one(c), y, k-1) == spanMods(p, nodes, a, y, k-1)
  trigger spanMods(p, nodes, a + one(c), y, k)
extern dom.FindAllNodes(node, match) (r)
  requires node != nil
  ensures forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] != nil
extern dom.FindFirstNode(node, match) (r)
  requires node != nil
func (p *tablePlugin) collectCellsInRow(ctx, rowIndex, rowNode) (cells, mods)
  property C14, C15
  requires ctx != nil && rowNode != nil
  modifies rendered
  ensures one_each: len(cells) == len(rendered) - len(old(rendered))
  ensures cell_text: forall k int {cells[k]} :: 0 <= k < len(cells) ==> cells[k] == cellOf(ctx, rendered[len(old(rendered))+k])
  ensures spans: exists nodes seq[*html.Node] {spanMods(p, nodes, cells, rowIndex, len(cells))} :: len(nodes) == len(cells) && mods == spanMods(p, nodes, cells, rowIndex, len(cells))
  ensures bars_escaped: {C14} forall k int {cells[k]} :: 0 <= k < len(cells) ==> barsEscaped(cells[k], len(cells[k]))
  ensures bars_escaped_there: {C14} modBars(mods)
  ensures on_the_grid: rowIndex >= 0 ==> (forall k int {mods[k]} :: 0 <= k < len(mods) ==> mods[k].y >= 0 && mods[k].x >= 0)
  use spans_of_prefix, escaping_bars
  invariant forall k int {cellContents[k]} :: 0 <= k < $i ==> barsEscaped(cellContents[k], len(cellContents[k]))
  invariant modBars(modifications) && index >= 0
  invariant rowIndex >= 0 ==> (forall k int {modifications[k]} :: 0 <= k < len(modifications) ==> modifications[k].y >= 0 && modifications[k].x >= 0)
  invariant len(cellContents) == $i && len(rendered) == len(old(rendered)) + $i
  invariant forall k int {cellContents[k]} :: 0 <= k < $i ==> cellContents[k] == cellOf(ctx, rendered[len(old(rendered))+k])
  invariant forall k int {rendered[k]} :: 0 <= k < len(old(rendered)) ==> rendered[k] == old(rendered)[k]
  invariant index == startCol(cellNodes, $i)
  invariant modifications == spanMods(p, cellNodes, cellContents, rowIndex, $i)

// a cell inserted into a row, a modification applied to the grid, all modifications of a row, those of all rows from the last to the k-th
spec func withCell(row seq[bytes], x int, d bytes) seq[bytes] {
  if x <= len(row) then row[:x] + one(d) + row[x:] else row + repseq("", x - len(row)) + one(d)
}
spec func grown(c seq[seq[bytes]], y int) seq[seq[bytes]] {
  if y < len(c) then c else c + repseq(emptyseq(""), y + 1 - len(c))
}
spec func applied(c seq[seq[bytes]], mods seq[table.modification], k int) seq[seq[bytes]] decreases k {
  if k <= 0 then c
  else let g = grown(applied(c, mods, k-1), mods[k-1].y) in
    upd(g, mods[k-1].y, withCell(g[mods[k-1].y], mods[k-1].x, mods[k-1].data))
}
spec func appliedGroups(c seq[seq[bytes]], groups seq[seq[table.modification]], k int) seq[seq[bytes]] decreases len(groups) - k {
  if k < 0 || k >= len(groups) then c else applied(appliedGroups(c, groups, k+1), groups[k], len(groups[k]))
}
spec func gridBars(g seq[seq[bytes]]) bool opaque { forall y int, x int {g[y][x]} :: 0 <= y < len(g) && 0 <= x < len(g[y]) ==> barsEscaped(g[y][x], len(g[y][x])) }
spec func gridLines(g seq[seq[bytes]]) bool opaque { forall y int, x int {g[y][x]} :: 0 <= y < len(g) && 0 <= x < len(g[y]) ==> !hasByte(g[y][x], '\n', len(g[y][x])) }
spec func rowsOf(g seq[seq[bytes]], n int) bool opaque { forall y int {g[y]} :: 0 <= y < len(g) ==> len(g[y]) == n }
spec func gridFits(g seq[seq[bytes]], widths seq[int]) bool opaque { forall y int, x int {g[y][x]} :: 0 <= y < len(g) && 0 <= x < len(g[y]) ==> x < len(widths) && runeCount(g[y][x]) <= widths[x] }
spec func modBars(mods seq[table.modification]) bool { forall k int {mods[k]} :: 0 <= k < len(mods) ==> barsEscaped(mods[k].data, len(mods[k].data)) }
func applyModifications(contents, mods) (r)
  property C15
  requires forall k int {mods[k]} :: 0 <= k < len(mods) ==> mods[k].y >= 0 && mods[k].x >= 0
  modifies contents
  ensures inserted_each: r == applied(old(contents), mods, len(mods))
  ensures bars_stay_escaped: {C14} gridBars(old(contents)) && modBars(mods) ==> gridBars(r)
  invariant gridBars(old(contents)) && modBars(mods) ==> gridBars(contents)
  invariant contents == applied(old(contents), mods, $i)
func applyGroupedModifications(contents, groupedMods) (r)
  property C15
  requires forall g int, k int {groupedMods[g][k]} :: 0 <= g < len(groupedMods) && 0 <= k < len(groupedMods[g]) ==> groupedMods[g][k].y >= 0 && groupedMods[g][k].x >= 0
  modifies contents, groupedMods
  ensures last_row_first: r == appliedGroups(old(contents), old(groupedMods), 0)
  ensures bars_stay_escaped: {C14} gridBars(old(contents)) && (forall g int {old(groupedMods)[g]} :: 0 <= g < len(old(groupedMods)) ==> modBars(old(groupedMods)[g])) ==> gridBars(r)
  invariant contents == appliedGroups(old(contents), old(groupedMods), len(groupedMods) - $i)
  invariant gridBars(old(contents)) && (forall g int {old(groupedMods)[g]} :: 0 <= g < len(old(groupedMods)) ==> modBars(old(groupedMods)[g])) ==> gridBars(contents)

// which rows go: never the first, and only rows of empty cells
extern slices.DeleteFunc(s, del) (r)
  ensures len(r) <= len(s)
  ensures forall i int {r[i]} :: 0 <= i < len(r) ==> (exists j int {s[j]} :: 0 <= j < len(s) && r[i] == s[j])
func removeEmptyRows$1(cells) (r)
  property C14
  ensures only_empty_rows: r ==> (forall i int {cells[i]} :: 0 <= i < len(cells) ==> cells[i] == "")
  ensures not_the_first: index == 0 ==> !r
func removeEmptyRows(rows) (r)
  property C14
  modifies rows
  ensures bars_stay_escaped: gridBars(old(rows)) ==> gridBars(r)

// the modifications of row y are those its cells ask for
spec func rowSpans(p *table.tablePlugin, row seq[bytes], mods seq[table.modification], y int) bool {
  exists nodes seq[*html.Node] {spanMods(p, nodes, row, y, len(row))} :: len(nodes) == len(row) && mods == spanMods(p, nodes, row, y, len(row))
}
func (p *tablePlugin) collectRows(ctx, headerRowNode, rowNodes) (r)
  property C14, C15
  requires ctx != nil
  requires forall i int {rowNodes[i]} :: 0 <= i < len(rowNodes) ==> rowNodes[i] != nil
  modifies rendered
  ensures len(rendered) >= len(old(rendered))
  invariant len(rendered) >= len(old(rendered))
  ensures bars_escaped: {C14} gridBars(r)
  ensures spans_applied: {C15} !p.skipEmptyRows && !p.promoteFirstRowToHeader ==>
    (exists rows seq[seq[bytes]], groups seq[seq[table.modification]] {appliedGroups(rows, groups, 0)} :: len(rows) == len(rowNodes) + 1 && len(groups) == len(rowNodes) + (if headerRowNode == nil then 0 else 1) && (forall g int, y int {groups[g], rows[y]} :: 0 <= g < len(groups) && y == g + (if headerRowNode == nil then 1 else 0) ==> rowSpans(p, rows[y], groups[g], y)) && r == appliedGroups(rows, groups, 0))
  invariant forall g int, y int {groupedModifications[g], rowContents[y]} :: 0 <= g < len(groupedModifications) && y == g + (if headerRowNode == nil then 1 else 0) ==> rowSpans(p, rowContents[y], groupedModifications[g], y)
  invariant len(rowContents) == $i + 1 && len(groupedModifications) == $i + (if headerRowNode == nil then 0 else 1)
  invariant gridBars(rowContents)
  invariant forall g int {groupedModifications[g]} :: 0 <= g < len(groupedModifications) ==> modBars(groupedModifications[g])
  invariant forall g int, k int {groupedModifications[g][k]} :: 0 <= g < len(groupedModifications) && 0 <= k < len(groupedModifications[g]) ==> groupedModifications[g][k].y >= 0 && groupedModifications[g][k].x >= 0

// a cell on one line
spec func oneLineCell(s bytes) bytes { let a = repl(s, "\xef\x80\x82", "\n", 0) in repl1(a, '\n', "<br />", len(a)) }
lemma bars_at(s bytes, n int, k int)
  property C14
  requires 0 <= k && k < n && n <= len(s) && barsEscaped(s, n) && s[k] == '|'
  decreases n
  apply bars_at(s, n-1, k) when k < n-1
  ensures k >= 1 && s[k-1] == 92
lemma bars_through_marker(s bytes, i int, a bytes)
  property C14
  requires 0 <= i <= len(s) && barsEscaped(s, len(s)) && barsEscaped(a, len(a))
  requires i < len(s) && s[i] == '|' ==> len(a) >= 1 && a[len(a)-1] == 92
  decreases len(s) - i
  apply bars_at(s, len(s), i+1) when i+1 < len(s) && s[i+1] == '|'
  apply bars_at(s, len(s), i+3) when i+3 < len(s) && s[i+3] == '|'
  apply bars_last(a, s[i]) when i < len(s)
  apply bars_last(a, 10)
  apply bars_through_marker(s, i+3, a + "\n") when i < len(s) && at(s, i, "\xef\x80\x82")
  apply bars_through_marker(s, i+1, a + unit(s[i])) when i < len(s) && !at(s, i, "\xef\x80\x82")
  ensures barsEscaped(a + repl(s, "\xef\x80\x82", "\n", i), len(a + repl(s, "\xef\x80\x82", "\n", i)))
lemma bars_through_break(s bytes, i int)
  property C14
  requires 0 <= i <= len(s) && barsEscaped(s, i)
  decreases i
  apply bars_through_break(s, i-1) when i > 0
  apply bars_last(repl1(s, '\n', "<br />", i-1), s[i-1]) when i > 0
  apply bars_last(repl1(s, '\n', "<br />", i-1), '<') when i > 0
  apply bars_last(repl1(s, '\n', "<br />", i-1) + "<", 'b') when i > 0
  apply bars_last(repl1(s, '\n', "<br />", i-1) + "<b", 'r') when i > 0
  apply bars_last(repl1(s, '\n', "<br />", i-1) + "<br", ' ') when i > 0
  apply bars_last(repl1(s, '\n', "<br />", i-1) + "<br ", '/') when i > 0
  apply bars_last(repl1(s, '\n', "<br />", i-1) + "<br /", '>') when i > 0
  ensures barsEscaped(repl1(s, '\n', "<br />", i), len(repl1(s, '\n', "<br />", i)))
  ensures i > 0 && s[i-1] == 92 ==> len(repl1(s, '\n', "<br />", i)) > 0 && repl1(s, '\n', "<br />", i)[len(repl1(s, '\n', "<br />", i))-1] == 92
lemma one_line_cell(s bytes)
  property C14
  requires barsEscaped(s, len(s))
  apply bars_at(s, len(s), 0) when len(s) > 0 && s[0] == '|'
  apply bars_through_marker(s, 0, "")
  apply bars_through_break(repl(s, "\xef\x80\x82", "\n", 0), len(repl(s, "\xef\x80\x82", "\n", 0)))
  ensures barsEscaped(oneLineCell(s), len(oneLineCell(s)))
  trigger oneLineCell(s)
lemma no_newline_last(a bytes, x int)
  requires 0 <= x && x < 256
  apply hasbyte_prefix(a, unit(x), '\n', len(a))
  ensures hasByte(a + unit(x), '\n', len(a) + 1) == (hasByte(a, '\n', len(a)) || x == '\n')
lemma no_newline_left(s bytes, i int)
  property C14
  requires 0 <= i <= len(s)
  decreases i
  apply no_newline_left(s, i-1) when i > 0
  apply no_newline_last(repl1(s, '\n', "<br />", i-1), s[i-1]) when i > 0
  apply no_newline_last(repl1(s, '\n', "<br />", i-1), '<') when i > 0
  apply no_newline_last(repl1(s, '\n', "<br />", i-1) + "<", 'b') when i > 0
  apply no_newline_last(repl1(s, '\n', "<br />", i-1) + "<b", 'r') when i > 0
  apply no_newline_last(repl1(s, '\n', "<br />", i-1) + "<br", ' ') when i > 0
  apply no_newline_last(repl1(s, '\n', "<br />", i-1) + "<br ", '/') when i > 0
  apply no_newline_last(repl1(s, '\n', "<br />", i-1) + "<br /", '>') when i > 0
  ensures !hasByte(repl1(s, '\n', "<br />", i), '\n', len(repl1(s, '\n', "<br />", i)))
lemma one_line(s bytes)
  property C14
  apply no_newline_left(repl(s, "\xef\x80\x82", "\n", 0), len(repl(s, "\xef\x80\x82", "\n", 0)))
  ensures !hasByte(oneLineCell(s), '\n', len(oneLineCell(s)))
  trigger oneLineCell(s)

// an element around which no table can stand, and what cannot stand in one
spec func aroundNoTable(name bytes) bool {
  name == "a" || name == "strong" || name == "b" || name == "em" || name == "i" || name == "del" || name == "s" || name == "strike"
}
spec func depth(n *html.Node) int
spec func insideProblem(n *html.Node) bool decreases depth(n) {
  if n == nil || depth(n) <= depth(n.Parent) || depth(n.Parent) < 0 then false else aroundNoTable(nodeName(n)) || insideProblem(n.Parent)
}
func hasProblematicParentNode(node) (r)
  property C14
  requires node != nil
  given forall n *html.Node {n.Parent} :: n != nil ==> depth(n.Parent) >= 0 && depth(n.Parent) < depth(n)
  ensures found: r == insideProblem(node.Parent)
  invariant insideProblem(node.Parent) == insideProblem(p)
  decreases depth(p)
func hasProblematicChildNode$1(n) (r)
  property C14
  ensures r == (nodeName(n) == "h1" || nodeName(n) == "h2" || nodeName(n) == "h3" || nodeName(n) == "h4" || nodeName(n) == "h5" || nodeName(n) == "h6" || nodeName(n) == "table" || nodeName(n) == "hr" || nodeName(n) == "ul" || nodeName(n) == "ol" || nodeName(n) == "blockquote")
func selectHeaderRowNode(node) (r)
  internal
  requires node != nil
// the rows below a node in their order, but not the header; from a node on
spec func bodyRows(header *html.Node, n *html.Node) seq[int]
spec func bodyRowsFrom(header *html.Node, n *html.Node) seq[int]
func selectNormalRowNodes$1(node)
  property C14
  requires node != nil
  requires forall m *html.Node {bodyRows(selectedHeaderRowNode, m)} :: m != nil ==> bodyRows(selectedHeaderRowNode, m) == (if nodeName(m) == "tr" && m != selectedHeaderRowNode then one(m) else emptyseq(1)) + bodyRowsFrom(selectedHeaderRowNode, m.FirstChild)
  requires forall m *html.Node {bodyRowsFrom(selectedHeaderRowNode, m)} :: m != nil ==> bodyRowsFrom(selectedHeaderRowNode, m) == bodyRows(selectedHeaderRowNode, m) + bodyRowsFrom(selectedHeaderRowNode, m.NextSibling)
  requires bodyRowsFrom(selectedHeaderRowNode, nil) == emptyseq(1)
  modifies collected
  ensures in_order: collected == old(collected) + bodyRows(selectedHeaderRowNode, node)
  ensures real: (forall i int {old(collected)[i]} :: 0 <= i < len(old(collected)) ==> old(collected)[i] != nil) ==> (forall i int {collected[i]} :: 0 <= i < len(collected) ==> collected[i] != nil)
  invariant collected + bodyRowsFrom(selectedHeaderRowNode, child) == old(collected) + bodyRows(selectedHeaderRowNode, node)
  invariant (forall i int {old(collected)[i]} :: 0 <= i < len(old(collected)) ==> old(collected)[i] != nil) ==> (forall i int {collected[i]} :: 0 <= i < len(collected) ==> collected[i] != nil)
func selectNormalRowNodes(tableNode, selectedHeaderRowNode) (r)
  property C14
  requires tableNode != nil
  given forall m *html.Node {bodyRows(selectedHeaderRowNode, m)} :: m != nil ==> bodyRows(selectedHeaderRowNode, m) == (if nodeName(m) == "tr" && m != selectedHeaderRowNode then one(m) else emptyseq(1)) + bodyRowsFrom(selectedHeaderRowNode, m.FirstChild)
  given forall m *html.Node {bodyRowsFrom(selectedHeaderRowNode, m)} :: m != nil ==> bodyRowsFrom(selectedHeaderRowNode, m) == bodyRows(selectedHeaderRowNode, m) + bodyRowsFrom(selectedHeaderRowNode, m.NextSibling)
  given bodyRowsFrom(selectedHeaderRowNode, nil) == emptyseq(1)
  ensures every_other_row: r == bodyRows(selectedHeaderRowNode, tableNode)
  ensures forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] != nil
func collectAlignments(headerRowNode, rowNodes) (r)
  internal
  requires forall i int {rowNodes[i]} :: 0 <= i < len(rowNodes) ==> rowNodes[i] != nil
func collectCaption(ctx, node) (r)
  property C14
  requires ctx != nil && node != nil
  modifies rendered
  ensures caption: len(rendered) == len(old(rendered)) && isnil(r) || len(rendered) == len(old(rendered)) + 1 && r == trimmed(rendered[len(old(rendered))])
func (p *tablePlugin) collectTableContent(ctx, node) (r)
  property C14
  requires ctx != nil && node != nil
  modifies rendered
  ensures presentation: attrOr(node.Attr, "role", "", 0) == "presentation" && !p.convertPresentationTables ==> r == nil
  ensures inside_inline: insideProblem(node.Parent) ==> r == nil
  ensures r != nil ==> fresh(r)
  ensures caption: r != nil ==> len(r.Caption) == 0 || len(rendered) > len(old(rendered)) && r.Caption == trimmed(rendered[len(rendered)-1])
  ensures one_row_at_least: r != nil ==> len(r.Rows) > 0
  ensures bars_escaped: r != nil ==> gridBars(r.Rows)
  ensures no_newline: r != nil ==> gridLines(r.Rows)
  use one_line, one_line_cell
  invariant L1: gridBars(rows) && len(rows) == len($all) && (forall y int {rows[y]} :: $i <= y < len(rows) ==> rows[y] == $all[y])
  invariant L1: forall y int, x int {rows[y][x]} :: 0 <= y < $i && 0 <= x < len(rows[y]) ==> !hasByte(rows[y][x], '\n', len(rows[y][x]))
  invariant L2: gridBars(rows) && len(rows) == len($upall) && len(rows[$up]) == len($all) && (forall y int {rows[y]} :: $up < y < len(rows) ==> rows[y] == $upall[y])
  invariant L2: forall y int, x int {rows[y][x]} :: 0 <= y < $up && 0 <= x < len(rows[y]) ==> !hasByte(rows[y][x], '\n', len(rows[y][x]))
  invariant L2: forall x int {rows[$up][x]} :: 0 <= x < $i ==> !hasByte(rows[$up][x], '\n', len(rows[$up][x]))
  invariant L2: forall x int {rows[$up][x]} :: $i <= x < len(rows[$up]) ==> rows[$up][x] == $all[x]

// the header row, the delimiter row, and k more rows
spec func tableText(padding bytes, rows seq[seq[bytes]], widths seq[int], aligns seq[bytes], k int) bytes decreases k {
  if k <= 0 then "\n\n" + rowText(padding, rows[0], widths, len(rows[0])) + "\n" + underText(padding, aligns, widths, len(widths)) + "\n"
  else tableText(padding, rows, widths, aligns, k-1) + rowText(padding, rows[k], widths, len(rows[k])) + "\n"
}
func (p *tablePlugin) renderTable(ctx, w, n) (r)
  property C14
  requires ctx != nil && n != nil
  modifies w, rendered
  ensures no_table: r == 0 ==> w == old(w)
  ensures presentation: attrOr(n.Attr, "role", "", 0) == "presentation" && !p.convertPresentationTables ==> r == 0
  ensures inside_inline: insideProblem(n.Parent) ==> r == 0
  ensures rectangle: r == 1 ==> (exists rows seq[seq[bytes]], widths seq[int], aligns seq[bytes], n int {tableText(p.cellPaddingBehavior, rows, widths, aligns, n)} ::
    n == len(rows) - 1 && n >= 0 && gridBars(rows) && rowsOf(rows, len(widths)) && gridLines(rows) && gridFits(rows, widths)
    && (let t = old(w) + tableText(p.cellPaddingBehavior, rows, widths, aligns, n) in
        w == t + "\n\n" || w == t + "\n\n\n\n" || len(rendered) > len(old(rendered)) && w == t + "\n\n" + trimmed(rendered[len(rendered)-1]) + "\n\n"))
  ensures status: r == 0 || r == 1
  invariant w == old(w) + tableText(p.cellPaddingBehavior, table.Rows, counts, table.Alignments, $i)

func (s *tablePlugin) renderFallbackRow(ctx, w, n) (r)
  property C14
  requires ctx != nil
  modifies w, rendered
  ensures own_block: r == 1 && w == old(w) + "\n\n" + rendered[len(old(rendered))] + "\n\n"
func (s *tablePlugin) handleRender(ctx, w, n) (r)
  property C14
  requires ctx != nil && n != nil
  modifies w, rendered
  ensures only_tables: nodeName(n) != "table" && nodeName(n) != "tr" ==> r == 0
  ensures no_table: r == 0 ==> w == old(w)
  ensures row: nodeName(n) == "tr" ==> r == 1 && w == old(w) + "\n\n" + rendered[len(old(rendered))] + "\n\n"
  ensures inside_inline: nodeName(n) == "table" && insideProblem(n.Parent) ==> r == 0
  ensures rectangle: nodeName(n) == "table" && r == 1 ==> (exists rows seq[seq[bytes]], widths seq[int], aligns seq[bytes], n int {tableText(s.cellPaddingBehavior, rows, widths, aligns, n)} ::
    n == len(rows) - 1 && n >= 0 && gridBars(rows) && rowsOf(rows, len(widths)) && gridLines(rows) && gridFits(rows, widths)
    && (let t = old(w) + tableText(s.cellPaddingBehavior, rows, widths, aligns, n) in
        w == t + "\n\n" || w == t + "\n\n\n\n" || len(rendered) > len(old(rendered)) && w == t + "\n\n" + trimmed(rendered[len(rendered)-1]) + "\n\n"))
