// Link destinations.
package converter

// ------------------------------------------------------------ library
spec func unescapeFails(s bytes) bool
spec func queryUnescaped(s bytes) bytes
spec func queryEscaped(s bytes) bytes
extern url.QueryUnescape(s) (r, err)
  ensures err != nil <==> unescapeFails(s)
  ensures err == nil ==> r == queryUnescaped(s)
extern url.QueryEscape(s) (r)
  ensures r == queryEscaped(s)
// what a parsed URL stands for: its parts apart from the query
spec func urlId(u *url.URL) int
spec func parsedId(raw bytes) int
spec func parsedQuery(raw bytes) bytes
spec func parsedScheme(raw bytes) bytes
spec func parsedHost(raw bytes) bytes
spec func parseFails(raw bytes) bool
spec func urlText(id int, query bytes) bytes
spec func resolvedId(base int, ref int, query bytes) int
spec func resolvedQuery(base int, bq bytes, ref int, query bytes) bytes
extern url.Parse(raw) (u, err)
  ensures err != nil <==> parseFails(raw)
  ensures err == nil ==> u != nil && urlId(u) == parsedId(raw) && u.RawQuery == parsedQuery(raw) && u.Scheme == parsedScheme(raw) && u.Host == parsedHost(raw)
extern (self *url.URL) String() (r)
  ensures r == urlText(urlId(self), self.RawQuery)
extern (self *url.URL) ResolveReference(ref) (r)
  ensures r != nil && urlId(r) == resolvedId(urlId(self), urlId(ref), ref.RawQuery) && r.RawQuery == resolvedQuery(urlId(self), self.RawQuery, urlId(ref), ref.RawQuery)
spec func firstOf(s bytes, c int, i int) int decreases len(s) - i {
  if i < 0 || i >= len(s) then len(s) else if s[i] == c then i else firstOf(s, c, i+1)
}
lemma first_bounds(s bytes, c int, i int)
  requires 0 <= i <= len(s)
  decreases len(s) - i
  apply first_bounds(s, c, i+1) when i < len(s)
  ensures i <= firstOf(s, c, i) <= len(s)
  trigger firstOf(s, c, i)
extern strings.SplitN(s, sep, n) (r)
  requires len(sep) == 1 && n == 2
  ensures firstOf(s, sep[0], 0) >= len(s) ==> len(r) == 1 && r[0] == s
  ensures firstOf(s, sep[0], 0) < len(s) ==> len(r) == 2 && r[0] == s[:firstOf(s, sep[0], 0)] && r[1] == s[firstOf(s, sep[0], 0)+1:]
extern strings.Cut(s, sep) (before, after, found)
  requires len(sep) == 1
  ensures found <==> firstOf(s, sep[0], 0) < len(s)
  ensures !found ==> before == s && len(after) == 0
  ensures found ==> before == s[:firstOf(s, sep[0], 0)] && after == s[firstOf(s, sep[0], 0)+1:]
spec func joined(a seq[bytes], sep bytes, n int) bytes decreases n {
  if n <= 0 then "" else if n == 1 then a[0] else joined(a, sep, n-1) + sep + a[n-1]
}
extern strings.Join(a, sep) (r)
  ensures r == joined(a, sep, len(a))

// ------------------------------------------------------------ the query
// every parameter stays where it is; key and value are encoded each for itself
spec func recoded(s bytes) bytes { if unescapeFails(s) then s else queryEscaped(queryUnescaped(s)) }
spec func param(p bytes) bytes {
  let i = firstOf(p, '=', 0) in
  if i >= len(p) then recoded(p)
  else if i + 1 == len(p) then recoded(p[:i]) + "="
  else recoded(p[:i]) + "=" + recoded(p[i+1:])
}
spec func params(a seq[bytes], n int) bytes decreases n {
  if n <= 0 then "" else if n == 1 then param(a[0]) else params(a, n-1) + "&" + param(a[n-1])
}
lemma params_joined(a seq[bytes], b seq[bytes], n int)
  requires 0 <= n <= len(a) && n <= len(b)
  requires forall k int {b[k]} {a[k]} :: 0 <= k < n ==> b[k] == param(a[k])
  decreases n
  apply params_joined(a, b, n-1) when n > 0
  ensures joined(b, "&", n) == params(a, n)
  trigger joined(b, "&", n), params(a, n)
func decodeAndEncode(original) (r)
  property C10
  internal
  ensures r == recoded(original)
func ParseAndEncodeQuery(rawQuery) (r)
  property C10
  ensures none: len(rawQuery) == 0 ==> len(r) == 0
  ensures every_parameter: len(rawQuery) > 0 ==> r == params(pieces(rawQuery, '&'), len(pieces(rawQuery, '&')))
  invariant len(encodedParts) == len(pieces(rawQuery, '&'))
  invariant forall k int {encodedParts[k]} {pieces(rawQuery, '&')[k]} :: 0 <= k < $i ==> encodedParts[k] == param(pieces(rawQuery, '&')[k])
  use params_joined, first_bounds

// ------------------------------------------------------------ the address
// none of the characters that could end the destination is left
spec func destChar(c int) bool { c != ' ' && c != '[' && c != ']' && c != '(' && c != ')' && c != '<' && c != '>' && c != '\r' && c != '\\' }
func parseBaseDomain(rawDomain) (u)
  property C10
  ensures none: len(rawDomain) == 0 ==> u == nil
  ensures as_it_is: len(rawDomain) > 0 && !parseFails(rawDomain) && len(parsedHost(rawDomain)) > 0 ==> u != nil && urlId(u) == parsedId(rawDomain) && u.RawQuery == parsedQuery(rawDomain)
  ensures with_scheme: len(rawDomain) > 0 && (parseFails(rawDomain) || len(parsedHost(rawDomain)) == 0) && !parseFails("http://" + rawDomain) && len(parsedHost("http://" + rawDomain)) > 0 ==>
    u != nil && urlId(u) == parsedId("http://" + rawDomain) && u.RawQuery == parsedQuery("http://" + rawDomain)
  ensures no_domain: len(rawDomain) > 0 && (parseFails(rawDomain) || len(parsedHost(rawDomain)) == 0) && (parseFails("http://" + rawDomain) || len(parsedHost("http://" + rawDomain)) == 0) ==> u == nil

spec func enc1(s bytes, c int, u bytes) bytes { repl1(s, c, u, len(s)) }
// in the order of the characters, as the replacements do not influence each other
spec func encoded(s bytes) bytes {
  enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D")
}
spec func rawAddress(raw bytes) bytes { enc1(enc1(trimmed(raw), '\n', "%0A"), '\t', "%09") }
spec func newQuery(q bytes) bytes {
  let p = (if len(q) == 0 then "" else params(pieces(q, '&'), len(pieces(q, '&')))) in enc1(p, '+', "%20")
}
spec func baseFails(d bytes) bool { parseFails(d) || len(parsedHost(d)) == 0 }
spec func baseOf(d bytes) bytes { if !baseFails(d) then d else "http://" + d }
spec func hasBase(d bytes) bool { len(d) > 0 && !(baseFails(d) && baseFails("http://" + d)) }
spec func address(raw bytes, domain bytes) bytes {
  let q = newQuery(parsedQuery(raw)) in
  if hasBase(domain) then urlText(resolvedId(parsedId(baseOf(domain)), parsedId(raw), q), resolvedQuery(parsedId(baseOf(domain)), parsedQuery(baseOf(domain)), parsedId(raw), q))
  else urlText(parsedId(raw), q)
}
func defaultAssembleAbsoluteURL(tagName, rawURL, domain) (r)
  property C10
  modifies url.URL.RawQuery
  ensures only_fragment: trimmed(rawURL) == "#" ==> r == "#"
  ensures unparsable_kept: trimmed(rawURL) != "#" && (parseFails(rawAddress(rawURL)) || parsedScheme(rawAddress(rawURL)) == "data") ==> r == encoded(rawAddress(rawURL))
  ensures resolved: trimmed(rawURL) != "#" && !parseFails(rawAddress(rawURL)) && parsedScheme(rawAddress(rawURL)) != "data" ==> r == encoded(address(rawAddress(rawURL), domain))

// no character that could end a destination is left in it
lemma hasbyte_prefix(a bytes, b bytes, x int, i int)
  requires 0 <= i <= len(a)
  decreases i
  apply hasbyte_prefix(a, b, x, i-1) when i > 0
  ensures hasByte(a + b, x, i) == hasByte(a, x, i)
lemma enc_free(s bytes, c int, u bytes, x int, i int)
  requires 0 <= i <= len(s)
  requires len(u) == 3 && u[0] != x && u[1] != x && u[2] != x
  requires x == c || !hasByte(s, x, i)
  decreases i
  apply enc_free(s, c, u, x, i-1) when i > 0
  apply hasbyte_prefix(repl1(s, c, u, i-1), u, x, len(repl1(s, c, u, i-1))) when i > 0
  apply hasbyte_prefix(repl1(s, c, u, i-1), unit(s[i-1]), x, len(repl1(s, c, u, i-1))) when i > 0
  assert i > 0 && s[i-1] == c ==> hasByte(repl1(s, c, u, i), x, len(repl1(s, c, u, i-1)) + 1) == hasByte(repl1(s, c, u, i-1), x, len(repl1(s, c, u, i-1)))
  assert i > 0 && s[i-1] == c ==> hasByte(repl1(s, c, u, i), x, len(repl1(s, c, u, i-1)) + 2) == hasByte(repl1(s, c, u, i-1), x, len(repl1(s, c, u, i-1)))
  ensures !hasByte(repl1(s, c, u, i), x, len(repl1(s, c, u, i)))
lemma no_char_0(s bytes)
  property C10
  apply enc_free(s, '\r', "%0D", '\r', len(s))
  apply enc_free(enc1(s, '\r', "%0D"), ' ', "%20", '\r', len(enc1(s, '\r', "%0D")))
  apply enc_free(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28", '\r', len(enc1(enc1(s, '\r', "%0D"), ' ', "%20")))
  apply enc_free(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29", '\r', len(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28")))
  apply enc_free(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C", '\r', len(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E", '\r', len(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B", '\r', len(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C", '\r', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", '\r', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), '\r', len(encoded(s)))
lemma no_char_1(s bytes)
  property C10
  apply enc_free(enc1(s, '\r', "%0D"), ' ', "%20", ' ', len(enc1(s, '\r', "%0D")))
  apply enc_free(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28", ' ', len(enc1(enc1(s, '\r', "%0D"), ' ', "%20")))
  apply enc_free(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29", ' ', len(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28")))
  apply enc_free(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C", ' ', len(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E", ' ', len(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B", ' ', len(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C", ' ', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", ' ', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), ' ', len(encoded(s)))
lemma no_char_2(s bytes)
  property C10
  apply enc_free(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28", '(', len(enc1(enc1(s, '\r', "%0D"), ' ', "%20")))
  apply enc_free(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29", '(', len(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28")))
  apply enc_free(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C", '(', len(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E", '(', len(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B", '(', len(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C", '(', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", '(', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), '(', len(encoded(s)))
lemma no_char_3(s bytes)
  property C10
  apply enc_free(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29", ')', len(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28")))
  apply enc_free(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C", ')', len(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E", ')', len(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B", ')', len(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C", ')', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", ')', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), ')', len(encoded(s)))
lemma no_char_4(s bytes)
  property C10
  apply enc_free(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C", '<', len(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E", '<', len(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B", '<', len(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C", '<', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", '<', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), '<', len(encoded(s)))
lemma no_char_5(s bytes)
  property C10
  apply enc_free(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E", '>', len(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B", '>', len(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C", '>', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", '>', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), '>', len(encoded(s)))
lemma no_char_6(s bytes)
  property C10
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B", '[', len(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C", '[', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", '[', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), '[', len(encoded(s)))
lemma no_char_7(s bytes)
  property C10
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C", '\\', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B")))
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", '\\', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), '\\', len(encoded(s)))
lemma no_char_8(s bytes)
  property C10
  apply enc_free(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C"), ']', "%5D", ']', len(enc1(enc1(enc1(enc1(enc1(enc1(enc1(enc1(s, '\r', "%0D"), ' ', "%20"), '(', "%28"), ')', "%29"), '<', "%3C"), '>', "%3E"), '[', "%5B"), '\\', "%5C")))
  ensures !hasByte(encoded(s), ']', len(encoded(s)))

extern fmt.Println(a) (n, err)
  ensures n >= 0
// the configured function decides, with the domain of this conversion
iface context.Context.Value(key) (r)
  ensures r == ctxValue(self, key)
functype converter.AssembleAbsoluteURLFunc(tagName, rawURL, domain) (r)
  ensures r == assembled(fn, tagName, rawURL, domain)
spec func assembled(fn int, tagName bytes, rawURL bytes, domain bytes) bytes
func GetDomain(ctx) (r)
  property C10
  internal
  requires ctx != nil
  ensures (let v = ctxValue(ctx, boxstr("Domain", "converter.ctxKey")) in r == (if v != 0 && typeis(v, string) then unboxstr(v) else ""))
func assembleAbsoluteURL(ctx, tagName, rawURL) (r)
  property C10
  requires ctx != nil
  requires (let v = ctxValue(ctx, boxstr("AssembleAbsoluteURL", "converter.ctxKey")) in v != 0 && typeis(v, "converter.AssembleAbsoluteURLFunc"))
  ensures r == assembled(ctxValue(ctx, boxstr("AssembleAbsoluteURL", "converter.ctxKey")), tagName, rawURL, (let v = ctxValue(ctx, boxstr("Domain", "converter.ctxKey")) in if v != 0 && typeis(v, string) then unboxstr(v) else ""))
