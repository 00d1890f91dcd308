package internal/textutils

// newlines since the last character that is neither a newline nor a space
spec func nls(s bytes, i int) int decreases i {
  if i <= 0 then 0
  else if s[i-1] == '\n' then nls(s, i-1) + 1
  else if s[i-1] == ' ' then nls(s, i-1)
  else 0
}
// never more than two of them, up to position i
spec func nlok(s bytes, i int) bool decreases i {
  if i <= 0 then true else nlok(s, i-1) && nls(s, i) <= 2
}
// the spaces just before position i
spec func pend(s bytes, i int) bytes decreases i {
  if i <= 0 then "" else if s[i-1] == ' ' then pend(s, i-1) + " " else ""
}
// what is left of s[:i] (without the spaces just before i)
spec func norm(s bytes, i int) bytes decreases i {
  if i <= 0 then ""
  else if s[i-1] == ' ' then norm(s, i-1)
  else if s[i-1] == '\n' then (if nls(s, i) <= 2 then norm(s, i-1) + pend(s, i-1) + "\n" else norm(s, i-1))
  else norm(s, i-1) + pend(s, i-1) + unit(s[i-1])
}
// everything but spaces and newlines
spec func visible(s bytes, i int) bytes decreases i {
  if i <= 0 then "" else if s[i-1] == ' ' || s[i-1] == '\n' then visible(s, i-1) else visible(s, i-1) + unit(s[i-1])
}

lemma nls_nonneg(s bytes, i int)
  ensures nls(s, i) >= 0
  decreases i
  apply nls_nonneg(s, i-1) when i > 0
  trigger nls(s, i)

lemma high_norm(s bytes, i int, w int)
  requires 0 <= i && 1 <= w && i + w <= len(s)
  requires forall k int {s[k]} :: i <= k < i + w ==> s[k] >= 128
  ensures norm(s, i + w) == norm(s, i) + pend(s, i) + s[i:i+w]
  ensures pend(s, i + w) == ""
  ensures nls(s, i + w) == 0
  decreases w
  apply high_norm(s, i, w-1) when w > 1

lemma high_norm_rune(s bytes, i int)
  requires 0 <= i < len(s) && s[i] >= 128
  ensures norm(s, i + runeWidth(s, i)) == norm(s, i) + pend(s, i) + s[i:i+runeWidth(s, i)]
  ensures pend(s, i + runeWidth(s, i)) == ""
  ensures nls(s, i + runeWidth(s, i)) == 0
  trigger norm(s, i), runeWidth(s, i)
  apply high_norm(s, i, runeWidth(s, i))

lemma visible_cong(a bytes, b bytes, n int)
  requires 0 <= n <= len(a) && n <= len(b)
  requires forall k int {a[k]} :: 0 <= k < n ==> a[k] == b[k]
  ensures visible(a, n) == visible(b, n)
  decreases n
  apply visible_cong(a, b, n-1) when n > 0

lemma visible_cat(a bytes, b bytes, n int)
  requires 0 <= n <= len(b)
  ensures visible(a + b, len(a) + n) == visible(a, len(a)) + visible(b, n)
  decreases n
  apply visible_cat(a, b, n-1) when n > 0
  apply visible_cong(a, a + b, len(a)) when n == 0
lemma pend_blank(s bytes, i int)
  requires 0 <= i <= len(s)
  ensures visible(pend(s, i), len(pend(s, i))) == ""
  decreases i
  apply pend_blank(s, i-1) when i > 0
  apply visible_cat(pend(s, i-1), " ", 1) when i > 0

// nothing but spaces and newlines is dropped
lemma norm_keeps(s bytes, i int)
  requires 0 <= i <= len(s)
  ensures visible(norm(s, i), len(norm(s, i))) == visible(s, i)
  decreases i
  apply norm_keeps(s, i-1) when i > 0
  apply pend_blank(s, i-1) when i > 0
  apply visible_cat(norm(s, i-1), pend(s, i-1), len(pend(s, i-1))) when i > 0
  apply visible_cat(norm(s, i-1) + pend(s, i-1), "\n", 1) when i > 0
  apply visible_cat(norm(s, i-1) + pend(s, i-1), unit(s[i-1]), 1) when i > 0

lemma nls_cong(a bytes, b bytes, n int)
  requires 0 <= n <= len(a) && n <= len(b)
  requires forall k int {a[k]} :: 0 <= k < n ==> a[k] == b[k]
  ensures nls(a, n) == nls(b, n) && nlok(a, n) == nlok(b, n)
  decreases n
  apply nls_cong(a, b, n-1) when n > 0

lemma pend_nls(a bytes, s bytes, i int)
  requires 0 <= i <= len(s)
  ensures nls(a + pend(s, i), len(a + pend(s, i))) == nls(a, len(a))
  ensures nlok(a, len(a)) && nls(a, len(a)) <= 2 ==> nlok(a + pend(s, i), len(a + pend(s, i)))
  decreases i
  apply pend_nls(a, s, i-1) when i > 0
  apply nls_cong(a + pend(s, i-1), a + pend(s, i), len(a + pend(s, i-1))) when i > 0

// never three newlines in a row, spaces between them included
lemma norm_ok(s bytes, i int)
  requires 0 <= i <= len(s)
  ensures nlok(norm(s, i), len(norm(s, i)))
  ensures nls(norm(s, i), len(norm(s, i))) == min(2, nls(s, i))
  decreases i
  use nls_nonneg
  apply norm_ok(s, i-1) when i > 0
  apply pend_nls(norm(s, i-1), s, i-1) when i > 0
  apply nls_cong(norm(s, i-1) + pend(s, i-1), norm(s, i-1) + pend(s, i-1) + "\n", len(norm(s, i-1) + pend(s, i-1))) when i > 0
  apply nls_cong(norm(s, i-1) + pend(s, i-1), norm(s, i-1) + pend(s, i-1) + unit(s[i-1]), len(norm(s, i-1) + pend(s, i-1))) when i > 0

// text that is already in normal form stays as it is
lemma norm_id(s bytes, i int)
  requires 0 <= i <= len(s) && nlok(s, i)
  ensures norm(s, i) + pend(s, i) == s[:i]
  decreases i
  apply norm_id(s, i-1) when i > 0

func TrimConsecutiveNewlines(input) (r)
  property C13
  ensures exact: r == norm(input, len(input)) + pend(input, len(input))
  ensures at_most_two: nlok(r, len(r))
  ensures nothing_lost: visible(r, len(r)) == visible(input, len(input))
  ensures normal_kept: nlok(input, len(input)) ==> r == input
  invariant result == norm(input, i)
  invariant spaceBuffer == pend(input, i)
  invariant 0 <= i <= len(input)
  invariant newlineCount == nls(input, i)
  use high_norm_rune, nls_nonneg
  apply norm_ok(input, len(input))
  apply norm_keeps(input, len(input))
  apply norm_id(input, len(input)) when nlok(input, len(input))
  apply pend_nls(norm(input, len(input)), input, len(input))
  apply pend_blank(input, len(input))
  apply visible_cat(norm(input, len(input)), pend(input, len(input)), len(pend(input, len(input))))

// ------------------------------------------------------------ hard line breaks before a blank line
// everything but spaces: newlines and visible characters
spec func skel(s bytes, i int) bytes decreases i {
  if i <= 0 then "" else if s[i-1] == ' ' then skel(s, i-1) else skel(s, i-1) + unit(s[i-1])
}
lemma skel_cong(a bytes, b bytes, n int)
  requires 0 <= n <= len(a) && n <= len(b)
  requires forall k int {a[k]} :: 0 <= k < n ==> a[k] == b[k]
  ensures skel(a, n) == skel(b, n)
  decreases n
  apply skel_cong(a, b, n-1) when n > 0
lemma skel_cat(a bytes, b bytes, n int)
  requires 0 <= n <= len(b)
  ensures skel(a + b, len(a) + n) == skel(a, len(a)) + skel(b, n)
  decreases n
  apply skel_cat(a, b, n-1) when n > 0
  apply skel_cong(a, a + b, len(a)) when n == 0
lemma skel_repl(s bytes, t bytes, u bytes, i int)
  requires 0 <= i <= len(s) && len(t) > 0 && skel(t, len(t)) == skel(u, len(u))
  ensures skel(repl(s, t, u, i), len(repl(s, t, u, i))) == skel(s[i:], len(s) - i)
  decreases len(s) - i
  apply skel_repl(s, t, u, i + len(t)) when i < len(s) && at(s, i, t)
  apply skel_cat(u, repl(s, t, u, i + len(t)), len(repl(s, t, u, i + len(t)))) when i < len(s) && at(s, i, t)
  apply skel_cat(t, s[i+len(t):], len(s) - i - len(t)) when i < len(s) && at(s, i, t)
  apply skel_repl(s, t, u, i + 1) when i < len(s) && !at(s, i, t)
  apply skel_cat(unit(s[i]), repl(s, t, u, i + 1), len(repl(s, t, u, i + 1))) when i < len(s) && !at(s, i, t)
  apply skel_cat(unit(s[i]), s[i+1:], len(s) - i - 1) when i < len(s) && !at(s, i, t)
  assert i < len(s) && at(s, i, t) ==> s[i:] == t + s[i+len(t):]
  assert i < len(s) && !at(s, i, t) ==> s[i:] == unit(s[i]) + s[i+1:]
  split i < len(s)
  split at(s, i, t)
// the two notions above only see the skeleton
lemma skel_sees(s bytes, i int)
  requires 0 <= i <= len(s)
  ensures nls(skel(s, i), len(skel(s, i))) == nls(s, i)
  ensures nlok(skel(s, i), len(skel(s, i))) == nlok(s, i)
  ensures visible(skel(s, i), len(skel(s, i))) == visible(s, i)
  decreases i
  apply skel_sees(s, i-1) when i > 0
  apply nls_cong(skel(s, i-1), skel(s, i-1) + unit(s[i-1]), len(skel(s, i-1))) when i > 0
  apply visible_cat(skel(s, i-1), unit(s[i-1]), 1) when i > 0
  apply nls_nonneg(s, i-1) when i > 0

spec func softBreaks(s bytes) bytes {
  repl(repl(repl(s, "  \n\n", "\n\n", 0), "  \n  \n", "\n\n", 0), "  \n \n", "\n\n", 0)
}
lemma soft_skel(s bytes)
  assert skel("  \n\n", 1) == "" && skel("  \n\n", 2) == "" && skel("  \n\n", 3) == "\n" && skel("  \n\n", 4) == "\n\n"
  assert skel("\n\n", 1) == "\n" && skel("\n\n", 2) == "\n\n"
  assert skel("  \n  \n", 1) == "" && skel("  \n  \n", 2) == "" && skel("  \n  \n", 3) == "\n" && skel("  \n  \n", 4) == "\n" && skel("  \n  \n", 5) == "\n" && skel("  \n  \n", 6) == "\n\n"
  assert skel("  \n \n", 1) == "" && skel("  \n \n", 2) == "" && skel("  \n \n", 3) == "\n" && skel("  \n \n", 4) == "\n" && skel("  \n \n", 5) == "\n\n"
  apply skel_repl(s, "  \n\n", "\n\n", 0)
  apply skel_repl(repl(s, "  \n\n", "\n\n", 0), "  \n  \n", "\n\n", 0)
  apply skel_repl(repl(repl(s, "  \n\n", "\n\n", 0), "  \n  \n", "\n\n", 0), "  \n \n", "\n\n", 0)
  ensures skel(softBreaks(s), len(softBreaks(s))) == skel(s, len(s))

func TrimUnnecessaryHardLineBreaks(content) (r)
  property C13
  ensures exact: r == softBreaks(content)
  ensures spaces_only: skel(r, len(r)) == skel(content, len(content))
  ensures still_normal: nlok(content, len(content)) ==> nlok(r, len(r))
  ensures nothing_lost: visible(r, len(r)) == visible(content, len(content))
  apply soft_skel(content)
  apply skel_sees(content, len(content))
  apply skel_sees(softBreaks(content), len(softBreaks(content)))
