package lib

// ------------------------------------------------------------ white space at both ends
// first position that is not white space, len(s) if there is none
spec func trimStart(s bytes) int
// end of the last character that is not white space, 0 if there is none
spec func trimEnd(s bytes) int
spec func blank(s bytes) bool { trimStart(s) >= len(s) }
spec func trimmed(s bytes) bytes { if blank(s) then "" else s[trimStart(s):trimEnd(s)] }
spec func trimmedLeft(s bytes) bytes { s[trimStart(s):] }
spec func trimmedRight(s bytes) bytes { s[:trimEnd(s)] }

axiom trim_start(s bytes)
  ensures 0 <= trimStart(s) <= len(s)
  ensures trimStart(s) < len(s) ==> !isSpaceRune(decodeRune(s, trimStart(s)))
  ensures forall k int {s[k]} :: 0 <= k < trimStart(s) ==> s[k] >= 128 || isSpaceRune(s[k])
  ensures len(s) > 0 && !isSpaceRune(decodeRune(s, 0)) ==> trimStart(s) == 0
  trigger trimStart(s)
  auto why "bytes.TrimLeftFunc(s, unicode.IsSpace) drops the longest prefix of white space runes"
axiom trim_end(s bytes)
  ensures 0 <= trimEnd(s) <= len(s)
  ensures trimEnd(s) > 0 ==> !isSpaceRune(lastRune(s[:trimEnd(s)]))
  ensures forall k int {s[k]} :: trimEnd(s) <= k < len(s) ==> s[k] >= 128 || isSpaceRune(s[k])
  ensures trimEnd(s) == 0 <==> blank(s)
  ensures !blank(s) ==> trimStart(s) < trimEnd(s)
  ensures len(s) > 0 && !isSpaceRune(lastRune(s)) ==> trimEnd(s) == len(s)
  trigger trimEnd(s)
  auto why "bytes.TrimRightFunc(s, unicode.IsSpace) drops the longest suffix of white space runes"
axiom trim_both(s bytes)
  ensures trimStart(s[:trimEnd(s)]) == (if blank(s) then 0 else trimStart(s))
  ensures !blank(s) ==> !blank(s[:trimEnd(s)])
  trigger trimEnd(s)
  auto why "the prefix of white space runes does not depend on trailing white space, unless all is white space"

extern bytes.Clone(s) (r)
  ensures r == s
  ensures isnil(r) <==> isnil(s)
extern bytes.TrimSpace(s) (r)
  ensures r == trimmed(s)
  ensures isnil(r) <==> blank(s)
extern strings.TrimSpace(s) (r)
  ensures r == trimmed(s)
// (the function argument is checked to be unicode.IsSpace by the engine)
extern bytes.TrimLeftSpace(s) (r)
  ensures r == trimmedLeft(s)
  ensures isnil(r) <==> blank(s)
extern bytes.TrimRightSpace(s) (r)
  ensures r == trimmedRight(s)
  ensures isnil(r) ==> isnil(s)

// ------------------------------------------------------------ search and replace
spec func at(s bytes, i int, t bytes) bool { 0 <= i && i + len(t) <= len(s) && s[i:i+len(t)] == t }
spec func contains(s bytes, t bytes, i int) bool decreases len(s) - i {
  if i < 0 || i + len(t) > len(s) then false else if at(s, i, t) then true else contains(s, t, i+1)
}
// s[i:] with every occurrence of the non-empty text t, found from the left, replaced by u
spec func repl(s bytes, t bytes, u bytes, i int) bytes decreases len(s) - i {
  if i < 0 || i >= len(s) || len(t) == 0 then ""
  else if at(s, i, t) then u + repl(s, t, u, i + len(t))
  else unit(s[i]) + repl(s, t, u, i+1)
}
// the special case of a single byte
spec func hasByte(s bytes, c int, i int) bool decreases i {
  if i <= 0 then false else s[i-1] == c || hasByte(s, c, i-1)
}
spec func repl1(s bytes, c int, u bytes, i int) bytes decreases i {
  if i <= 0 then "" else if s[i-1] == c then repl1(s, c, u, i-1) + u else repl1(s, c, u, i-1) + unit(s[i-1])
}
extern bytes.ReplaceAll(s, o, u) (r)
  requires len(o) > 0
  ensures len(o) == 1 ==> r == repl1(s, o[0], u, len(s))
  ensures len(o) > 1 ==> r == repl(s, o, u, 0)
extern strings.ReplaceAll(s, o, u) (r)
  requires len(o) > 0
  ensures len(o) == 1 ==> r == repl1(s, o[0], u, len(s))
  ensures len(o) > 1 ==> r == repl(s, o, u, 0)
// s[i:] with the first occurrence of t replaced by u
spec func replFirst(s bytes, t bytes, u bytes, i int) bytes decreases len(s) - i {
  if i < 0 || i >= len(s) || len(t) == 0 then ""
  else if at(s, i, t) then u + s[i+len(t):]
  else unit(s[i]) + replFirst(s, t, u, i+1)
}
// text without white space (that is ASCII)
spec func oneWord(s bytes) bool { forall k int {s[k]} :: 0 <= k < len(s) ==> !(s[k] == 32 || 9 <= s[k] <= 13) }
lemma without_stays_one_word(s bytes, t bytes, i int)
  requires 0 <= i <= len(s) && oneWord(s)
  decreases len(s) - i
  apply without_stays_one_word(s, t, i+1) when i < len(s)
  ensures oneWord(replFirst(s, t, "", i))
// the words of a text
spec func fieldsOf(s bytes) seq[bytes]
axiom fields_are_words(s bytes, k int)
  requires 0 <= k < len(fieldsOf(s))
  ensures len(fieldsOf(s)[k]) > 0 && oneWord(fieldsOf(s)[k])
  trigger fieldsOf(s)[k]
  auto why "strings.Fields: no field is empty or contains white space"
extern strings.Fields(s) (r)
  ensures r == fieldsOf(s)
extern strings.Replace(s, o, u, n) (r)
  requires len(o) > 0
  ensures n == 1 ==> r == replFirst(s, o, u, 0)
  ensures n < 0 && len(o) == 1 ==> r == repl1(s, o[0], u, len(s))
  ensures n < 0 && len(o) > 1 ==> r == repl(s, o, u, 0)
extern bytes.ContainsRune(s, c) (r)
  ensures 0 <= c < 128 ==> r == hasByte(s, c, len(s))
extern strings.ContainsRune(s, c) (r)
  ensures 0 <= c < 128 ==> r == hasByte(s, c, len(s))
extern bytes.Contains(s, t) (r)
  ensures r <==> contains(s, t, 0)
  ensures len(t) == 1 ==> (r <==> hasByte(s, t[0], len(s)))
extern strings.Contains(s, t) (r)
  ensures r <==> contains(s, t, 0)
extern bytes.HasSuffix(s, t) (r)
  ensures r == (len(t) <= len(s) && s[len(s)-len(t):] == t)
extern strings.HasSuffix(s, t) (r)
  ensures r == (len(t) <= len(s) && s[len(s)-len(t):] == t)
extern bytes.HasPrefix(s, t) (r)
  ensures r == (len(t) <= len(s) && s[:len(t)] == t)
extern strings.HasPrefix(s, t) (r)
  ensures r == (len(t) <= len(s) && s[:len(t)] == t)
extern strings.TrimPrefix(s, t) (r)
  ensures r == (if len(t) <= len(s) && s[:len(t)] == t then s[len(t):] else s)
extern strings.TrimSuffix(s, t) (r)
  ensures r == (if len(t) <= len(s) && s[len(s)-len(t):] == t then s[:len(s)-len(t)] else s)

// ------------------------------------------------------------ lines
// the pieces of s between the occurrences of the byte c
spec func pieces(s bytes, c int) seq[bytes]
spec func glue(a seq[bytes], c int, n int) bytes decreases n {
  if n <= 0 then "" else if n == 1 then a[0] else glue(a, c, n-1) + unit(c) + a[n-1]
}
axiom pieces_split(s bytes, c int)
  ensures len(pieces(s, c)) >= 1
  ensures glue(pieces(s, c), c, len(pieces(s, c))) == s
  trigger pieces(s, c)
  auto why "bytes.Split: joining the pieces with the separator gives the text back"
axiom pieces_free(s bytes, c int, k int)
  requires 0 <= k < len(pieces(s, c))
  ensures !hasByte(pieces(s, c)[k], c, len(pieces(s, c)[k]))
  trigger pieces(s, c)[k]
  auto why "bytes.Split: no piece contains the separator"
extern bytes.Split(s, sep) (r)
  requires len(sep) == 1
  ensures r == pieces(s, sep[0])
extern strings.Split(s, sep) (r)
  requires len(sep) == 1
  ensures r == pieces(s, sep[0])
extern bytes.Replace(s, o, u, n) (r)
  requires len(o) > 0
  ensures n < 0 && len(o) == 1 ==> r == repl1(s, o[0], u, len(s))
  ensures n < 0 && len(o) > 1 ==> r == repl(s, o, u, 0)
