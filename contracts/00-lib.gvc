// Library layer: what is assumed of the Go standard library.

package lib

// ------------------------------------------------------------ UTF-8
spec func decodeRune(s bytes, i int) int
spec func runeWidth(s bytes, i int) int
spec func utf8enc(r int) bytes

axiom decode_width(s bytes, i int)
  requires 0 <= i && i < len(s)
  ensures 1 <= runeWidth(s, i) && runeWidth(s, i) <= 4 && i + runeWidth(s, i) <= len(s)
  ensures forall k int {s[k]} :: i < k && k < i + runeWidth(s, i) ==> s[k] >= 128
  trigger runeWidth(s, i)
  auto why "UTF-8: a decoded rune spans 1 to 4 bytes inside the text; bytes after the first are continuation bytes"

axiom decode_rune(s bytes, i int)
  requires 0 <= i && i < len(s)
  ensures s[i] < 128 ==> decodeRune(s, i) == s[i] && runeWidth(s, i) == 1
  ensures s[i] >= 128 ==> decodeRune(s, i) >= 128
  ensures 0 <= decodeRune(s, i) <= 1114111
  trigger decodeRune(s, i)
  auto why "UTF-8: ASCII bytes decode to themselves, all others to a rune of at least 128 (or U+FFFD)"

axiom decode_shift(s bytes, i int, n int)
  requires 0 <= i && i < n && n == len(s)
  ensures runeWidth(s[i:n], 0) == runeWidth(s, i)
  ensures decodeRune(s[i:n], 0) == decodeRune(s, i)
  trigger runeWidth(s[i:n], 0)
  auto why "UTF-8: decoding depends only on the bytes from the position on"

axiom enc_rune(r int)
  ensures 0 <= r < 128 ==> utf8enc(r) == unit(r)
  ensures 1 <= len(utf8enc(r)) <= 4
  trigger utf8enc(r)
  auto why "UTF-8: encoding of ASCII runes"

// ------------------------------------------------------------ strings
extern strings.Repeat(s, count) (r)
  requires count >= 0
  ensures len(s) == 1 ==> r == rep(s[0], count)
  ensures len(r) == len(s) * count

extern bytes.Repeat(s, count) (r)
  requires count >= 0
  ensures len(s) == 1 ==> r == rep(s[0], count)
  ensures len(r) == len(s) * count
// the runes of a text
spec func runesOf(s bytes) seq[int]

// numbers as text
spec func itoa(n int) bytes
spec func zpad(w int, n int) bytes
spec func atoi(s bytes) int
spec func atoiFails(s bytes) bool
axiom itoa_digits(n int)
  requires n >= 0
  ensures len(itoa(n)) >= 1
  ensures forall k int {itoa(n)[k]} :: 0 <= k < len(itoa(n)) ==> '0' <= itoa(n)[k] <= '9'
  trigger itoa(n)
  auto why "strconv.Itoa: digits only for a number that is not negative"
axiom itoa_longer(a int, b int)
  requires 0 <= a <= b
  ensures len(itoa(a)) <= len(itoa(b))
  trigger itoa(a), itoa(b)
  auto why "strconv.Itoa: a larger number has no fewer digits"
axiom zpad_zeros(w int, n int)
  requires n >= 0
  ensures zpad(w, n) == rep('0', max(0, w - len(itoa(n)))) + itoa(n)
  trigger zpad(w, n)
  auto why "fmt %0*d: zeros in front up to the width"
extern strconv.Atoi(s) (n, err)
  ensures n == atoi(s)
  ensures err != nil <==> atoiFails(s)
spec func runeCount(s bytes) int
axiom rune_count_ascii(s bytes)
  requires forall k int {s[k]} :: 0 <= k < len(s) ==> s[k] < 128
  ensures runeCount(s) == len(s)
  trigger runeCount(s)
  auto why "utf8.RuneCount: every ASCII byte is one rune"
axiom rune_count_nonneg(s bytes)
  ensures 0 <= runeCount(s) <= len(s)
  trigger runeCount(s)
  auto why "utf8.RuneCount: a rune has at least one byte"
extern utf8.RuneCountInString(s) (r)
  ensures r == runeCount(s)
extern utf8.RuneCount(s) (r)
  ensures r == runeCount(s)

// the last rune of a non-empty text
spec func lastRune(s bytes) int
axiom last_rune(s bytes)
  requires len(s) > 0
  ensures s[len(s)-1] < 128 ==> lastRune(s) == s[len(s)-1]
  ensures s[len(s)-1] >= 128 ==> lastRune(s) >= 128
  trigger lastRune(s)
  auto why "UTF-8: utf8.DecodeLastRune on an ASCII tail gives that byte, otherwise a rune of at least 128"

spec func isSpaceRune(r int) bool
axiom space_rune(r int)
  ensures 0 <= r < 128 ==> (isSpaceRune(r) <==> (9 <= r <= 13 || r == 32))
  trigger isSpaceRune(r)
  auto why "unicode.IsSpace on ASCII: tab, newline, vertical tab, form feed, carriage return and space"
spec func isDigitRune(r int) bool
axiom digit_rune(r int)
  ensures 0 <= r < 128 ==> (isDigitRune(r) <==> 48 <= r <= 57)
  trigger isDigitRune(r)
  auto why "unicode.IsDigit on ASCII"

extern unicode.IsSpace(r) (b)
  ensures b == isSpaceRune(r)
extern unicode.IsDigit(r) (b)
  ensures b == isDigitRune(r)
extern utf8.DecodeRune(p) (r, size)
  ensures len(p) > 0 ==> r == decodeRune(p, 0) && size == runeWidth(p, 0)
  ensures len(p) == 0 ==> r == 65533 && size == 0
extern utf8.DecodeRuneInString(p) (r, size)
  ensures len(p) > 0 ==> r == decodeRune(p, 0) && size == runeWidth(p, 0)
  ensures len(p) == 0 ==> r == 65533 && size == 0
extern utf8.DecodeLastRune(p) (r, size)
  ensures len(p) > 0 ==> r == lastRune(p)
  ensures len(p) == 0 ==> r == 65533 && size == 0
