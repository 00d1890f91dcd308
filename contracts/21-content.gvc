package converter

// ------------------------------------------------------------ marking
// Where escaping may be needed a marker byte (7) goes in front of the byte;
// whether a backslash is really needed is decided once the line is complete.
func (conv *Converter) checkIsEscapedChar(r) (ok)
  internal
  ensures ok <==> haskey(conv.markdownChars, r)

spec func marked(m converter.Converter.markdownChars, s bytes, i int) bytes decreases i {
  if i <= 0 then ""
  else if s[i-1] == 0 then marked(m, s, i-1) + "\xef\xbf\xbd"
  else if haskey(m, decodeRune(s, i-1)) then marked(m, s, i-1) + unit(7) + unit(s[i-1])
  else marked(m, s, i-1) + unit(s[i-1])
}
func (conv *Converter) escapeContent(chars) (r)
  property C01
  ensures disabled: conv.escapeMode == "disabled" ==> r == chars
  ensures marked: conv.escapeMode != "disabled" ==> r == marked(conv.markdownChars, chars, len(chars))
  invariant newChars == marked(conv.markdownChars, chars, $i)

// ------------------------------------------------------------ deciding
// what an unescape handler says about the character at an index: -1 or the
// number of bytes the construct it starts spans
spec func unesc(fn int, chars bytes, index int) int
functype converter.HandleUnEscapeFunc(chars, index) (r)
  requires 0 <= index < len(chars)
  ensures r == unesc(fn, chars, index)
  ensures r == -1 || r >= 1

spec func ordUn(hs converter.Converter.unEscapeHandlers) converter.Converter.unEscapeHandlers
// the answer of the first handler, in order, that recognises the character
spec func firstSkip(hs converter.Converter.unEscapeHandlers, chars bytes, index int, k int) int decreases len(hs) - k {
  if k < 0 || k >= len(hs) then 0-1
  else if unesc(hs[k].Value, chars, index) != 0-1 then unesc(hs[k].Value, chars, index)
  else firstSkip(hs, chars, index, k+1)
}
// does the scan that is at position i turn the marker at j into a backslash?
// Markers inside a construct whose start was escaped are skipped.
spec func escaped(hs converter.Converter.unEscapeHandlers, chars bytes, i int, j int) bool decreases max(len(chars) - i, 0) {
  if i < 0 || i > j || i + 1 >= len(chars) then false
  else if chars[i] != 7 then escaped(hs, chars, i+1, j)
  else if firstSkip(hs, chars, i+1, 0) < 1 then escaped(hs, chars, i+1, j)
  else if i == j then true
  else escaped(hs, chars, i + firstSkip(hs, chars, i+1, 0), j)
}
spec func unescaped(hs converter.Converter.unEscapeHandlers, chars bytes, i int) bytes decreases i {
  if i <= 0 then ""
  else if chars[i-1] != 7 then unescaped(hs, chars, i-1) + unit(chars[i-1])
  else if escaped(hs, chars, 0, i-1) then unescaped(hs, chars, i-1) + "\\"
  else unescaped(hs, chars, i-1)
}
func unEscapeContent$1(index) (r)
  inline
  invariant L1: firstSkip(ordUn(conv.unEscapeHandlers), chars, index, 0) == firstSkip(ordUn(conv.unEscapeHandlers), chars, index, $i)
func (conv *Converter) unEscapeContent(chars) (r)
  property C01, C02, C03
  requires forall i int {conv.unEscapeHandlers[i]} :: 0 <= i < len(conv.unEscapeHandlers) ==> conv.unEscapeHandlers[i].Value != nil
  ensures disabled: conv.escapeMode == "disabled" ==> r == chars
  ensures decided: conv.escapeMode != "disabled" ==> r == unescaped(ordUn(conv.unEscapeHandlers), chars, len(chars))
  invariant len(changes) == len(chars)
  invariant L1: index >= 0
  invariant L1: forall j int {escaped(ordUn(conv.unEscapeHandlers), chars, index, j)} {escaped(ordUn(conv.unEscapeHandlers), chars, 0, j)} :: index <= j ==> escaped(ordUn(conv.unEscapeHandlers), chars, 0, j) == escaped(ordUn(conv.unEscapeHandlers), chars, index, j)
  invariant L1: forall j int {changes[j]} :: 0 <= j < len(chars) && j < index ==> (changes[j] == 1 <==> escaped(ordUn(conv.unEscapeHandlers), chars, 0, j))
  invariant L1: forall j int {changes[j]} :: index <= j < len(chars) ==> changes[j] == 0
  invariant L2: newChars == unescaped(ordUn(conv.unEscapeHandlers), chars, $i)

// ------------------------------------------------------------ nothing leaks, nothing is lost
lemma no_marker_leaks(hs converter.Converter.unEscapeHandlers, s bytes, i int, k int)
  property C01
  requires 0 <= i <= len(s)
  requires 0 <= k < len(unescaped(hs, s, i))
  decreases i
  apply no_marker_leaks(hs, s, i-1, k) when i > 0 && k < len(unescaped(hs, s, i-1))
  ensures unescaped(hs, s, i)[k] != 7

// a text without its markers
spec func unmarked(s bytes, i int) bytes decreases i {
  if i <= 0 then "" else if s[i-1] == 7 then unmarked(s, i-1) else unmarked(s, i-1) + unit(s[i-1])
}
// what is seen of a text: markers and NUL bytes aside
spec func plainOf(s bytes, i int) bytes decreases i {
  if i <= 0 then ""
  else if s[i-1] == 0 then plainOf(s, i-1) + "\xef\xbf\xbd"
  else if s[i-1] == 7 then plainOf(s, i-1)
  else plainOf(s, i-1) + unit(s[i-1])
}
lemma unmarked_prefix(a bytes, b bytes, i int)
  requires 0 <= i <= len(a)
  decreases i
  apply unmarked_prefix(a, b, i-1) when i > 0
  ensures unmarked(a + b, i) == unmarked(a, i)

lemma unmarked_cat(a bytes, b bytes, i int)
  requires 0 <= i <= len(b)
  decreases i
  apply unmarked_cat(a, b, i-1) when i > 0
  apply unmarked_prefix(a, b, len(a)) when i == 0
  ensures unmarked(a + b, len(a) + i) == unmarked(a, len(a)) + unmarked(b, i)
// marking adds markers and nothing else
lemma marking_is_invisible(m converter.Converter.markdownChars, s bytes, i int)
  property C01
  requires 0 <= i <= len(s)
  decreases i
  apply marking_is_invisible(m, s, i-1) when i > 0
  apply unmarked_cat(marked(m, s, i-1), "\xef\xbf\xbd", 3) when i > 0 && s[i-1] == 0
  apply unmarked_cat(marked(m, s, i-1), unit(s[i-1]), 1) when i > 0
  apply unmarked_cat(marked(m, s, i-1) + unit(7), unit(s[i-1]), 1) when i > 0
  apply unmarked_cat(marked(m, s, i-1), unit(7), 1) when i > 0
  assert unmarked("\xef\xbf\xbd", 1) == "\xef"
  assert unmarked("\xef\xbf\xbd", 2) == "\xef\xbf"
  assert unmarked("\xef\xbf\xbd", 3) == "\xef\xbf\xbd"
  split i > 0
  split s[i-1] == 0
  split s[i-1] == 7
  split haskey(m, decodeRune(s, i-1))
  ensures unmarked(marked(m, s, i), len(marked(m, s, i))) == plainOf(s, i)

// with the backslashes that were inserted taken out again, the output is
// the marked text without markers
spec func inserted(hs converter.Converter.unEscapeHandlers, s bytes, i int) int decreases i {
  if i <= 0 then 0 else if s[i-1] == 7 && escaped(hs, s, 0, i-1) then inserted(hs, s, i-1) + 1 else inserted(hs, s, i-1)
}
lemma only_backslashes_added(hs converter.Converter.unEscapeHandlers, s bytes, i int)
  property C01
  requires 0 <= i <= len(s)
  decreases i
  apply only_backslashes_added(hs, s, i-1) when i > 0
  ensures inserted(hs, s, i) >= 0
  ensures len(unescaped(hs, s, i)) == len(unmarked(s, i)) + inserted(hs, s, i)
  ensures inserted(hs, s, i) == 0 ==> unescaped(hs, s, i) == unmarked(s, i)
