package internal/textutils

// ------------------------------------------------------------ a prefix on every line
spec func prefixed(s bytes, p bytes, i int) bytes decreases i {
  if i <= 0 then p
  else if s[i-1] == '\n' then prefixed(s, p, i-1) + "\n" + p
  else prefixed(s, p, i-1) + unit(s[i-1])
}
func PrefixLines(source, repl) (r)
  property C12
  ensures every_line: r == prefixed(source, repl, len(source))
  invariant newSlice == prefixed(source, repl, $i)

// ------------------------------------------------------------ delimiters around every line
func SurroundingSpaces(content) (leftExtra, trimmed, rightExtra)
  property C07
  ensures parts: leftExtra + trimmed + rightExtra == content
  ensures blank_line: isnil(trimmed) <==> blank(content)
  ensures middle: trimmed == trimmed(content)
  ensures left: leftExtra == (if blank(content) then "" else content[:trimStart(content)])
  ensures right: rightExtra == (if blank(content) then content else content[trimEnd(content):])

// one line with the delimiter d around its text, unless it is blank
spec func delimLine(l bytes, d bytes) bytes {
  if blank(l) then l else l[:trimStart(l)] + d + l[trimStart(l):trimEnd(l)] + d + l[trimEnd(l):]
}
spec func delimLines(a seq[bytes], d bytes, n int) bytes decreases n {
  if n <= 0 then "" else if n == 1 then delimLine(a[0], d) else delimLines(a, d, n-1) + "\n" + delimLine(a[n-1], d)
}
spec func delimTail(a seq[bytes], d bytes, i int) bytes {
  if i >= 1 && i < len(a) then delimLines(a, d, i) + "\n" else delimLines(a, d, i)
}
func DelimiterForEveryLine(text, delimiter) (r)
  property C07
  ensures every_line: r == delimLines(pieces(text, 10), delimiter, len(pieces(text, 10)))
  invariant buf == delimTail(pieces(text, 10), delimiter, $i)
  invariant lines == pieces(text, 10)

// ------------------------------------------------------------ content that must not be interrupted by a blank line
spec func keepLine(l bytes, last bool) bytes {
  if blank(l) then "\\\n"
  else if last then trimmedLeft(l)
  else if len(trimmedLeft(l)) >= 2 && trimmedLeft(l)[len(trimmedLeft(l))-2:] == "  " then trimmedLeft(l) + "\n"
  else trimmedLeft(l) + "  \n"
}
spec func keepLines(a seq[bytes], n int) bytes decreases n {
  if n <= 0 then "" else keepLines(a, n-1) + keepLine(a[n-1], n == len(a))
}
func EscapeMultiLine(content) (r)
  property C08, C09
  ensures one_line: len(pieces(content, 10)) == 1 ==> r == content
  ensures every_line: len(pieces(content, 10)) != 1 ==> r == keepLines(pieces(content, 10), len(pieces(content, 10)))
  invariant output == keepLines(parts, $i)
  invariant parts == pieces(content, 10)

// ------------------------------------------------------------ quotes
func SurroundBy(content, chars) (r)
  property C09
  internal
  ensures r == chars + content + chars

spec func doubled(s bytes) bytes { repl1(s, '\\', "\\\\", len(s)) }
spec func inQuotes(content bytes) bytes {
  if len(content) == 0 then "" else
    (let d = doubled(content) in
    if hasByte(d, '"', len(d)) && hasByte(d, '\'', len(d)) then "\"" + repl1(d, '"', "\\\"", len(d)) + "\""
    else if hasByte(d, '"', len(d)) then "'" + d + "'"
    else "\"" + d + "\"")
}
func SurroundByQuotes(content) (r)
  property C09
  ensures quoted: r == inQuotes(content)

// ------------------------------------------------------------ inline code on one line
spec func spaced(s bytes) bytes { trimmed(repl1(repl1(s, '\n', " ", len(s)), '\t', " ", len(repl1(s, '\n', " ", len(s))))) }
spec func squeeze(s bytes, i int) bytes decreases i {
  if i <= 0 then ""
  else if s[i-1] == ' ' && i >= 2 && s[i-2] == ' ' then squeeze(s, i-1)
  else squeeze(s, i-1) + unit(s[i-1])
}
func CollapseInlineCodeContent(content) (r)
  property C06
  ensures collapsed: r == squeeze(spaced(content), len(spaced(content)))
  invariant newChars == squeeze(content, $i)
  invariant count >= 0
  invariant count > 0 <==> $i > 0 && content[$i - 1] == ' '
